import { click, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

export default function create(): Adapter {
    let m: Mounted;
    let evens = '';
    const list = (groups: string[]) => groups.map((group, i) => ({ id: `i${i + 1}`, label: `item ${i + 1}`, item: { group }, disabled: false, index: i, value: i }));
    const by: Record<string, any> = {
        none: null,
        item: (item: any) => item.group,
        index: (_: any, index: number) => (index % 2 === 0 ? evens : ''),
    };
    const children = () => Array.from(m.root.querySelectorAll('.vs-grouped-list-group, .vs-grouped-list-item')) as HTMLElement[];

    return {
        async start(c) {
            evens = c.evens;
            m = mountComponent('VsGroupedList', { items: list(c.items), groupBy: by[c.by], groupOrder: [...c.order] }, { listen: ['click-item'] });
            await settle();
        },
        async step(a) {
            if (a.op === 'items') m.props.items = list(a.to);
            else if (a.op === 'order') m.props.groupOrder = [...a.to];
            else if (a.op === 'by') m.props.groupBy = by[a.to];
            else {
                m.events.length = 0;
                click(m.root.querySelector(`#i${a.item}`), 'item');
                const grouped = !!m.root.querySelector('.vs-grouped-list-group');
                return m.events.map(([, e]) => [Number(e.id.slice(1)), grouped ? e.group.name : '-', e.groupIndex + 1, e.groupedIndex + 1])[0];
            }
            await settle();
        },
        observe() {
            const shown: [string, number[]][] = [];
            for (const el of children()) {
                if (el.classList.contains('vs-grouped-list-group')) {
                    const name = el.textContent?.trim() ?? '';
                    shown.push([name === 'Ungrouped' ? '' : name, []]);
                } else {
                    if (!shown.length) shown.push(['-', []]);
                    shown[shown.length - 1][1].push(Number(el.textContent?.trim().slice(5)));
                }
            }
            return { shown };
        },
        stop() {
            m.unmount();
        },
    };
}
