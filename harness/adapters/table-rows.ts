import { h } from 'vue';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { type } from '#h/fields';
import { mountComponent, type Mounted } from '#h/mount';
import { COLUMNS, header, item, rowNo, rowsOf } from '#h/table';

export default function create(): Adapter {
    let m: Mounted;
    // the same object stands for a row in every list of items
    const objects = [1, 2, 3, 4, 5].map(item);
    const list = (rows: number[]) => rows.map((r) => objects[r - 1]);

    return {
        async start(c) {
            fakeTimers();
            const place = c.kind === 'place';
            m = mountComponent(
                'VsTable',
                {
                    columns: COLUMNS,
                    items: list(c.items),
                    selectedItems: [],
                    expandable: (it: any, i: number) => (place ? i % 2 === 0 : rowNo(it) !== 1),
                    selectable: (it: any, i: number) => (place ? i > 1 : rowNo(it) !== 3),
                    state: (it: any, i: number, all: any[]) =>
                        place ? (rowNo(all[1]) === rowNo(it) && i === 1 ? 'error' : 'idle') : rowNo(it) === 2 ? 'warning' : 'idle',
                    search: true,
                    noVirtualScroll: true,
                    pagination: { pageSizeOptions: [{ label: '2', value: 2 }], showPageSizeSelect: false, showTotal: false, showingLength: 5 },
                },
                { bind: ['selectedItems'], listen: ['expand-row'], slots: { expand: ({ item }: any) => h('i', { class: 'panel' }, item.id) } },
            );
            await settle();
        },
        async step(a) {
            m.events.length = 0;
            if (a.op === 'toggle') click(rowsOf(m.root).find((r) => r.no === a.r)?.tr.querySelector('.vs-table-expand-handle button'), 'expand button');
            else if (a.op === 'items') m.props.items = list(a.to);
            else if (a.op === 'cols') m.props.columns = a.to === 'all' ? COLUMNS : COLUMNS.slice(0, 2);
            else if (a.op === 'page') click(m.root.querySelectorAll('.vs-page-button')[a.to], 'page');
            else if (a.op === 'sort') click(header(m.root, 'K')?.querySelector('.vs-table-sort-icon'), 'sort icon');
            else if (a.op === 'search') type(m.root.querySelector('.vs-search-input input'), a.to);
            await settle();
            for (const el of Array.from(m.root.querySelectorAll('.vs-expandable-wrapper'))) el.dispatchEvent(new Event('transitionend'));
            await settle();
            if (a.op !== 'toggle') return;
            const opened = m.events.filter((e) => e[0] === 'expand-row').map((e) => rowNo(e[1][0][0].item));
            return opened.length ? opened : ['-'];
        },
        observe() {
            return {
                rows: rowsOf(m.root).map(({ tr, no }) => {
                    const panel = tr.querySelector('.panel');
                    return {
                        no,
                        button: !!tr.querySelector('.vs-table-expand-handle button'),
                        box: !!tr.querySelector('input.vs-checkbox-input'),
                        state: /vs-state-(\w+)/.exec(tr.className)?.[1] ?? 'idle',
                        panel: !panel ? 'shut' : panel.textContent === `row${no}` ? 'open' : `of ${panel.textContent}`,
                    };
                }),
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
