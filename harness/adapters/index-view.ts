import { createCommentVNode, createTextVNode, defineComponent, Fragment, h, reactive, ref } from 'vue';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const Counter = defineComponent({
    props: { n: { type: Number, required: true } },
    setup(p) {
        const count = ref(0);
        return () => h('button', { class: 'child', 'data-n': p.n, onClick: () => count.value++ }, String(count.value));
    },
});

export default function create(): Adapter {
    let m: Mounted;
    let bound = false;
    const page = reactive({ drop: false });
    const shown = () => {
        const all = (Array.from(m.root.querySelectorAll('.child')) as HTMLElement[]).filter((e) => {
            for (let p: HTMLElement | null = e; p && p !== m.root; p = p.parentElement) if (p.style.display === 'none') return false;
            return true;
        });
        if (all.length > 1) throw new Error(`${all.length} children at once`);
        return all[0];
    };

    return {
        async start(c) {
            fakeTimers();
            bound = c.bound;
            page.drop = false;
            m = mountComponent('VsIndexView', { keepAlive: c.keep, ...(bound ? { modelValue: c.first } : {}) }, {
                bind: bound ? ['modelValue'] : [],
                // as a template with blanks, v-if and v-for compiles
                slots: {
                    default: () => [
                        h(Counter, { n: 1 }),
                        createTextVNode(' '),
                        page.drop ? createCommentVNode('v-if', true) : h(Counter, { n: 2, key: 0 }),
                        h(Fragment, null, [h(Counter, { n: 3, key: 'x' })]),
                    ],
                },
            });
            await settle();
        },
        async step(a) {
            if (a.op === 'go') a.how === 'call' ? m.inst.updateIndex(a.to) : (m.props.modelValue = a.to);
            else if (a.op === 'bump') click(shown(), 'child');
            else if (a.op === 'drop') page.drop = a.to;
            await settle();
        },
        observe() {
            const el = shown();
            return { child: el ? Number(el.dataset.n) : 0, count: el ? Number(el.textContent) : 0, bound: bound ? m.props.modelValue : '-' };
        },
        async stop() {
            m.unmount();
            await advance(100);
        },
    };
}
