import { h } from 'vue';
import { advance, fakeTimers, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const SIZES = ['xs', 'sm', 'md', 'lg', 'xl'];
const NEEDS: Record<string, any> = {
    VsSelect: { options: ['a'] },
    VsRadioSet: { options: ['a'] },
    VsCheckboxSet: { options: ['a'] },
    VsRadio: { radioValue: 'a' },
    VsTabs: { tabs: ['a'] },
    VsSteps: { steps: ['a'] },
};

/** What the style sheet makes of the classes and variables of an element (see VsResponsive.css). */
function taken(el: HTMLElement, what: string, size: number): string {
    if (what === 'width' && el.style.width) return el.style.width;
    let v = el.style.getPropertyValue(`--vs-${what}-xs`) || (what === 'width' ? '100%' : '12');
    for (const s of SIZES.slice(1, size + 1)) if (el.classList.contains(`vs-${what}-${s}`)) v = el.style.getPropertyValue(`--vs-${what}-${s}`) || '?';
    return v;
}

export default function create(): Adapter {
    let m: Mounted;
    let cfg: any;
    // numbers may be given as numbers or as texts
    const given = (v: string, i: number) => (/^\d+$/.test(v) && i % 2 === 0 ? Number(v) : v);
    const plain = (v: string) => (cfg.what === 'width' && /^\d+px$/.test(v) ? v.slice(0, -2) : v);

    return {
        async start(c) {
            fakeTimers();
            cfg = c;
            const fixed = c.what === 'width' ? { grid: 3, width: undefined } : { width: '40%', grid: undefined };
            m = mountComponent(c.comp, { ...NEEDS[c.comp], ...fixed }, { slots: { default: () => h('p', 'x') } });
            await settle();
        },
        async step(a) {
            if (a.op === 'plain') m.props[cfg.what] = given(plain(a.to), 0);
            else if (a.op === 'remove') m.props[cfg.what] = undefined;
            else if (a.op === 'size') {
                if (a.how === 'same') m.props[cfg.what][a.size] = given(plain(a.to), SIZES.indexOf(a.size));
                else m.props[cfg.what] = Object.fromEntries(SIZES.map((s, i) => [s, given(plain(a.all[i]), i)] as const).filter(([, v]) => v !== ''));
            }
            await settle();
        },
        observe() {
            const el = m.root.querySelector('.vs-responsive') as HTMLElement;
            return {
                taken: SIZES.map((_, i) => taken(el, cfg.what, i)),
                other: taken(el, cfg.what === 'width' ? 'grid' : 'width', 2),
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
