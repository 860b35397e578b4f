import { h } from 'vue';
import { advance, click, fakeTimers, key, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

export default function create(): Adapter {
    let m: Mounted;
    let bound = false;
    const el = () => m.root.querySelector('.vs-accordion') as HTMLElement;

    return {
        async start(c) {
            fakeTimers();
            bound = c.bound;
            m = mountComponent('VsAccordion', { disabled: false, ...(bound ? { modelValue: c.open } : { open: c.open }) }, {
                bind: bound ? ['modelValue'] : [],
                listen: ['toggle'],
                slots: { title: () => [h('span', { class: 'name' }, 'name'), h('button', { class: 'in-title' })], default: () => h('input', { class: 'in-content' }) },
            });
            await settle();
        },
        async step(a) {
            m.events.length = 0;
            let prevented = false;
            if (a.op === 'header') {
                if (a.how === 'click') click(m.root.querySelector('.name'), 'title');
                else if (a.how === 'call') m.inst.toggle();
                else key(a.how, el(), { key: a.how === 'Space' ? ' ' : a.how });
            } else if (a.op === 'inside') {
                const target = m.root.querySelector(`.in-${a.where}`)!;
                const e =
                    a.what === 'click'
                        ? new MouseEvent('click', { bubbles: true, cancelable: true })
                        : new KeyboardEvent('keydown', { code: a.what, key: a.what === 'Space' ? ' ' : a.what, bubbles: true, cancelable: true });
                target.dispatchEvent(e);
                prevented = e.defaultPrevented;
            } else if (a.op === 'assign') m.props.modelValue = a.to;
            else if (a.op === 'off') m.props.disabled = a.to;
            await settle();
            for (const w of Array.from(m.root.querySelectorAll('.vs-expandable-wrapper'))) w.dispatchEvent(new Event('transitionend'));
            await settle();
            const told = m.events.filter((e) => e[0] === 'toggle').map((e) => e[1]);
            return a.op === 'inside' && !told.length ? [prevented ? 'taken' : 'free'] : told;
        },
        observe() {
            return {
                open: el().classList.contains('vs-accordion-open'),
                panel: !!m.root.querySelector('.in-content'),
                bound: bound ? m.props.modelValue : '-',
                stop: el().tabIndex >= 0,
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
