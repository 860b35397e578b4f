import { toRaw } from 'vue';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const text = (el: Element | null | undefined) => (el?.textContent ?? '').trim();

export default function create(): Adapter {
    let m: Mounted;

    function make(kind: string, i: number): any {
        if (kind === 'ab') return { a: `a${i}`, b: `b${i}` };
        if (kind === 'ba') return { b: `b${i}`, a: `a${i}` };
        if (kind === 'a') return { a: `a${i}` };
        if (kind === 'b') return { b: `b${i}` };
        if (kind === 'an') return { a: `a${i}`, b: null };
        return { a: `a${i}`, b: `b${i}`, c: { d: `d${i}` } };
    }
    const show = (v: any) => (v === undefined || v === null ? '' : String(v));
    function columns(kind: string): any {
        if (kind === 'names') return ['b', 'a'];
        if (kind === 'path') return ['c.d', 'a'];
        const A = { key: 'a', label: 'A' };
        const B = { key: 'b', label: 'B' };
        if (kind === 'defs') return [A, B];
        if (kind === 'renamed') return [{ ...A, label: 'First' }, B];
        if (kind === 'joined') return [A, { ...B, align: 'right', transform: (v: any, item: any) => `${show(v)}/${show(item.a)}` }];
        if (kind === 'marked') return [A, { ...B, transform: (v: any, item: any) => `${show(v)}?${show(item.a)}` }];
        return [];
    }
    const copy = (o: any): any => JSON.parse(JSON.stringify(o));
    const bodyRows = () => Array.from(m.root.querySelectorAll('tbody.vs-table-body tr.vs-table-body-row'));

    return {
        async start(c) {
            fakeTimers();
            m = mountComponent(
                'VsTable',
                { columns: columns(c.cols), items: c.kinds.map((k: string, i: number) => make(k, i + 1)), loading: false, noVirtualScroll: true },
                {
                    listen: ['click-cell', 'click-row'],
                    slots:
                        c.slots === 'key'
                            ? {
                                  'body-a': ({ value, item }: any) => `<${show(value)}|${show(item.b)}>`,
                                  'header-a': ({ value }: any) => `<${value}>`,
                              }
                            : {},
                },
            );
            await settle();
        },
        async step(a) {
            m.events.length = 0;
            if (a.op === 'cols') m.props.columns = columns(a.to);
            else if (a.op === 'items') m.props.items = a.to.map((k: string, i: number) => make(k, i + 1));
            else if (a.op === 'copy') m.props.items = copy(m.props.items);
            else if (a.op === 'copy-cols') m.props.columns = m.props.columns.map((c: any) => (typeof c === 'string' ? c : { ...c }));
            else if (a.op === 'touch') m.props.items[a.i - 1].a += '!';
            else if (a.op === 'push') m.props.items.push(make(a.kind, m.props.items.length + 1));
            else if (a.op === 'drop') m.props.items.pop();
            else if (a.op === 'load') m.props.loading = a.to;
            else if (a.op === 'click') click(bodyRows()[a.i - 1]?.querySelectorAll('td.vs-table-td')[a.j - 1], 'cell');
            await settle();
            if (a.op !== 'click') return;
            const cells = m.events.filter((e) => e[0] === 'click-cell');
            const rows = m.events.filter((e) => e[0] === 'click-row');
            if (cells.length !== 1 || rows.length !== 1) return { cells: cells.length, rows: rows.length };
            const cell = cells[0][1][0] ?? cells[0][1];
            const item = rows[0][1][0] ?? rows[0][1];
            const given = toRaw(m.props.items[a.i - 1]);
            return { key: cell.colKey, value: show(cell.value), row: cell.rowIdx, col: cell.colIdx, own: toRaw(cell.item) === given && toRaw(item) === given };
        },
        observe() {
            const none = m.root.querySelector('.vs-table-no-data');
            return {
                heads: Array.from(m.root.querySelectorAll('.vs-table-header-row th')).map(text),
                rows: bodyRows().map((tr) =>
                    Array.from(tr.querySelectorAll('td.vs-table-td')).map((td: any) => ({
                        l: td.getAttribute('data-label') ?? '',
                        t: td.querySelector('.vs-skeleton') ? '~' : text(td),
                        w: td.style.textAlign,
                    })),
                ),
                empty: !none ? '' : none.querySelector('.vs-loading') ? 'loading' : text(none),
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
