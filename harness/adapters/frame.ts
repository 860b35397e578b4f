import { settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const OWN: Record<string, any> = {
    VsRadio: { radioValue: 'r' },
    VsRadioSet: { options: ['a', 'b'] },
    VsCheckboxSet: { options: ['a', 'b'], modelValue: [] },
    VsSelect: { options: ['a', 'b'] },
};
// a set numbers its controls, and a select names its trigger after the id
const ID: Record<string, string> = { VsRadioSet: '#frame-0', VsCheckboxSet: '#frame-0', VsSelect: '#frame-trigger' };
const GIVEN: Record<string, () => any> = {
    label: () => 'text',
    messages: () => [
        { state: 'info', text: 'one' },
        { state: 'success', text: 'two' },
    ],
};

export default function create(): Adapter {
    let m: Mounted;
    let cfg: any;
    const value = (s: string, to: boolean) => (!to ? (s === 'label' ? '' : s === 'messages' ? [] : false) : (GIVEN[s]?.() ?? true));
    const controls = () => Array.from(m.root.querySelectorAll('input, textarea')) as HTMLInputElement[];

    return {
        async start(c) {
            cfg = c.x;
            const given = Object.fromEntries(c.on.map((s: string) => [s, value(s, true)]));
            m = mountComponent(cfg.kind, { ...OWN[cfg.kind], id: 'frame', name: cfg.name, ...given }, { slots: cfg.slot ? { label: () => 'slot' } : {} });
            await settle();
        },
        async step(a) {
            m.props[a.what] = value(a.what, a.to);
            await settle();
        },
        observe() {
            const label = m.root.querySelector('.vs-label');
            const shut = m.root.querySelector('.vs-select');
            const all = controls();
            return {
                label: label ? (label.textContent ?? '').replace('*', '').trim() : '-',
                star: !!m.root.querySelector('.vs-required-star'),
                messages: Array.from(m.root.querySelectorAll('.vs-message-text')).map((n) => n.textContent),
                hidden: (m.root.firstElementChild as HTMLElement).style.display === 'none',
                usable: shut ? !shut.classList.contains('vs-disabled') : all.length > 0 && all.every((n) => !n.disabled),
                id: m.root.querySelectorAll(ID[cfg.kind] ?? '#frame').length === 1,
                name: cfg.name === '' || cfg.kind === 'VsSelect' || all.every((n) => n.name === cfg.name),
            };
        },
        stop() {
            m.unmount();
        },
    };
}
