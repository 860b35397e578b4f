import { click, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

export default function create(): Adapter {
    let m: Mounted;
    const numbers = () => Array.from(m.root.querySelectorAll('.vs-page-button')) as HTMLElement[];
    const num = (n: Element) => Number(n.textContent?.trim());
    const control = (label: string) => m.root.querySelector(`[aria-label="go to ${label} page"]`) as HTMLButtonElement | null;
    const press = (label: string) => {
        const b = control(label);
        if (!b) throw new Error(`no ${label} button`);
        if (!b.disabled) click(b);
    };
    /** Clicks its way to a page over the numbers on display. */
    async function clickTo(page: number) {
        for (let tries = 0; tries < 12; tries++) {
            const shown = numbers();
            const best = shown.reduce((a, b) => (Math.abs(num(b) - page) < Math.abs(num(a) - page) ? b : a));
            if ((best as HTMLButtonElement).disabled) return;
            const from = m.props.modelValue;
            click(best);
            await settle(1);
            if (num(best) === page) return;
            if (m.props.modelValue === from) break;
        }
        m.inst.setPage(page - 1);
    }

    return {
        async start(c) {
            m = mountComponent(
                'VsPagination',
                { length: c.n, showingLength: c.w, modelValue: c.sel, edgeButtons: true, disabled: false },
                { bind: ['modelValue'], listen: ['change'] },
            );
            await settle(1);
        },
        async step(a) {
            m.events.length = 0;
            if (a.op === 'page') await clickTo(a.to + 1);
            else if (a.op === 'prev') press('previous');
            else if (a.op === 'next' || a.op === 'first' || a.op === 'last') press(a.op);
            else if (a.op.startsWith('go')) m.inst[a.op]();
            else if (a.op === 'setPage') m.inst.setPage(a.to);
            else if (a.op === 'assign') m.props.modelValue = a.to;
            else if (a.op === 'length') m.props.length = a.to;
            else if (a.op === 'window') m.props.showingLength = a.to;
            else if (a.op === 'disabled') m.props.disabled = a.to;
            await settle(1);
            return m.events.filter((e) => e[0] === 'change').map((e) => e[1]);
        },
        observe() {
            const shown = numbers().map(num);
            const marked = numbers().filter((n) => n.classList.contains('vs-primary')).map(num);
            const b = m.props.modelValue;
            return {
                bound: b >= 0 && b < m.props.length ? b : -1,
                marked,
                shown: shown.length,
                contiguous: shown.every((p, i) => i === 0 || p === shown[i - 1] + 1),
                inRange: shown.every((p) => p >= 1 && p <= m.props.length),
            };
        },
        stop() {
            m.unmount();
        },
    };
}
