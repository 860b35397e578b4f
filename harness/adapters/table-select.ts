import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { type } from '#h/fields';
import { mountComponent, type Mounted } from '#h/mount';
import { COLUMNS, header, item, rowNo, rowsOf } from '#h/table';

export default function create(): Adapter {
    let m: Mounted;
    const box = (el: Element | null | undefined) => el?.querySelector('input.vs-checkbox-input') as HTMLInputElement | null;
    const headerBox = () => box(m.root.querySelector('.vs-table-header-row'));

    return {
        async start(c) {
            fakeTimers();
            m = mountComponent(
                'VsTable',
                {
                    columns: COLUMNS,
                    items: c.items.map(item),
                    selectedItems: c.sel.map(item),
                    selectable: (it: any) => rowNo(it) !== 3,
                    search: true,
                    noVirtualScroll: true,
                    pagination: { pageSizeOptions: [{ label: '2', value: 2 }], showPageSizeSelect: false, showTotal: false, showingLength: 5 },
                },
                { bind: ['selectedItems'] },
            );
            await settle();
        },
        async step(a) {
            if (a.op === 'row') click(box(rowsOf(m.root).find((r) => r.no === a.r)?.tr), 'row box');
            else if (a.op === 'header') click(headerBox(), 'header box');
            else if (a.op === 'assign') m.props.selectedItems = a.to.map(item);
            else if (a.op === 'items') m.props.items = a.to.map(item);
            else if (a.op === 'page') click(m.root.querySelectorAll('.vs-page-button')[a.to], 'page');
            else if (a.op === 'sort') click(header(m.root, 'K')?.querySelector('.vs-table-sort-icon'), 'sort icon');
            else if (a.op === 'search') type(m.root.querySelector('.vs-search-input input'), a.to);
            await settle();
        },
        observe() {
            return {
                sel: m.props.selectedItems.map(rowNo),
                rows: rowsOf(m.root).map((r) => {
                    const b = box(r.tr);
                    return [r.no, b ? (b.checked ? 'on' : 'off') : 'none', r.tr.classList.contains('vs-selected') ? 'marked' : 'plain'];
                }),
                header: headerBox()?.checked,
                part: !!m.root.querySelector('.vs-table-header-row .vs-indeterminate'),
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
