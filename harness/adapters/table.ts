import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { pickOption, closeSelect, type } from '#h/fields';
import { mountComponent, type Mounted } from '#h/mount';
import { COLUMNS, header, item, LISTS, rowNo, rowsOf } from '#h/table';

const size = (n: number) => (n === 99 ? Infinity : n);
const COL: Record<string, string> = { k: 'K', g: 'G' };

export default function create(): Adapter {
    let m: Mounted;
    let cfg: any;
    let last: any;
    let isBound = false;

    const buttons = () => Array.from(m.root.querySelectorAll('.vs-page-button')) as HTMLElement[];

    return {
        async start(c) {
            fakeTimers();
            cfg = c;
            isBound = c.mode === 'client' || c.mode === 'server';
            const options = c.sizes.map((s: number) => ({ label: `size ${s}`, value: size(s) }));
            const props: any = { columns: COLUMNS, items: LISTS[c.list].map(item), search: true, noVirtualScroll: true };
            if (c.mode !== 'off') props.pagination = { pageSizeOptions: options, showPageSizeSelect: true, showTotal: true, showingLength: 10, totalItemCount: 5 };
            if (c.mode === 'server') props.serverMode = true;
            if (isBound) Object.assign(props, { page: 0, pageSize: size(c.size) });
            m = mountComponent('VsTable', props, { bind: isBound ? ['page', 'pageSize'] : [], listen: ['update:pagedItems', 'update:totalItems'] });
            last = { paged: [], all: [] };
            await settle();
        },
        async step(a) {
            if (a.op === 'items') m.props.items = LISTS[a.to].map(item);
            else if (a.op === 'search') type(m.root.querySelector('.vs-search-input input'), a.to);
            else if (a.op === 'sort') click(header(m.root, COL[a.to])?.querySelector('.vs-table-sort-icon'), 'sort icon');
            else if (a.op === 'page') click(buttons()[a.to], 'page button');
            else if (a.op === 'assignPage') m.props.page = a.to;
            else if (a.op === 'assignSize') m.props.pageSize = size(a.to);
            else if (a.op === 'size') {
                const sel = m.root.querySelector('.vs-table-pagination-info')!;
                await pickOption(sel, `size ${a.to}`);
                await closeSelect(sel);
            }
            await settle();
        },
        observe() {
            for (const [e, v] of m.events) {
                if (e === 'update:pagedItems') last.paged = v.map(rowNo);
                if (e === 'update:totalItems') last.all = v.map(rowNo);
            }
            m.events.length = 0;
            const info = m.root.querySelector('.vs-total-items')?.textContent ?? '';
            const icon = Object.keys(COL).flatMap((c) => {
                const k = header(m.root, COL[c])?.querySelector('.vs-table-sort-icon')?.getAttribute('class') ?? '';
                return /arrow-up\b(?!-down)/.test(k) ? [c, 1] : /arrow-down\b(?!-up)/.test(k) ? [c, 2] : [];
            });
            return {
                rows: rowsOf(m.root).map((r) => r.no),
                paged: last.paged,
                all: last.all,
                pages: buttons().length,
                current: Number(buttons().find((b) => b.classList.contains('vs-primary'))?.textContent ?? 0),
                info: (info.match(/\d+/g) ?? []).map(Number),
                bound: isBound ? [m.props.page, m.props.pageSize === Infinity ? 99 : m.props.pageSize] : [],
                icon,
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
