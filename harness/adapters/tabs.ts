import { click, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const KEYS: Record<string, string[]> = {
    h: ['ArrowLeft', 'ArrowRight', 'ArrowUp', 'ArrowDown'],
    v: ['ArrowUp', 'ArrowDown', 'ArrowLeft', 'ArrowRight'],
};
const ITEMS = ['a', 'b', 'c', 'd', 'e'];

export default function create(): Adapter {
    let m: Mounted;
    let cfg: any;
    let dis: number[] = [];
    const items = () => Array.from(m.root.querySelectorAll(cfg.comp === 'tabs' ? '.vs-tab-item' : '.vs-step-item'));
    const listName = () => (cfg.comp === 'tabs' ? 'tabs' : 'steps');
    const marked = () => items().flatMap((n, i) => (n.classList.contains('vs-selected') ? [i] : []));
    const byItem = () => {
        const off = dis.map((i) => ITEMS[i]);
        return (item: string) => off.includes(item);
    };

    return {
        async start(c) {
            (Element.prototype as any).scrollIntoView ??= () => {};
            cfg = c;
            dis = c.dis;
            m = mountComponent(
                c.comp === 'tabs' ? 'VsTabs' : 'VsSteps',
                { [c.comp === 'tabs' ? 'tabs' : 'steps']: ITEMS.slice(0, c.len), disabled: byItem(), vertical: c.dir === 'v', modelValue: c.sel },
                { bind: ['modelValue'], listen: ['change'] },
            );
            await settle();
        },
        async step(a) {
            m.events.length = 0;
            if (a.op === 'click') click(items()[a.arg]);
            else if (a.op === 'key') {
                const [prev, next, oPrev, oNext] = KEYS[cfg.dir];
                const k = ({ prev, next, otherPrev: oPrev, otherNext: oNext } as any)[a.arg] ?? a.arg;
                const target = items()[marked()[0] ?? 0];
                target.dispatchEvent(new KeyboardEvent('keydown', { key: k, code: k, bubbles: true, cancelable: true }));
            } else if (a.op === 'go') a.arg === 'next' ? m.inst.goNext() : m.inst.goPrev();
            else if (a.op === 'assign') m.props.modelValue = a.arg;
            else if (a.op === 'resize') m.props[listName()] = ITEMS.slice(0, a.arg);
            else if (a.op === 'flip') {
                dis = a.arg;
                if (m.props.disabled !== true) m.props.disabled = byItem();
            } else if (a.op === 'flipAll') m.props.disabled = a.arg ? true : byItem();
            await settle();
            return m.events.filter((e) => e[0] === 'change').map((e) => e[1]);
        },
        observe() {
            const list = items();
            const b = m.props.modelValue;
            return {
                marked: marked(),
                bound: b >= 0 && b < list.length ? b : -1,
                count: list.length,
                off: list.map((n) => n.classList.contains('vs-disabled')),
            };
        },
        stop() {
            m.unmount();
        },
    };
}
