import { createApp, defineComponent, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from '#h/app';
import { fakeTimers, settle, type Adapter } from '#h/core';
import { vi } from 'vitest';

const { VsLayout, VsContainer, VsHeader, VsFooter, VsDrawer } = VlossomComponents as any;
// bars may be wrapped in components of the page
const Wrapped = defineComponent({ inheritAttrs: false, setup: (_, { attrs }) => () => h('section', h(VsFooter, attrs)) });

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let s: any;
    const noBar = { on: false };

    const bar = (b: any) => ({ layout: b.layout, position: b.pos || undefined, height: b.height || undefined });
    const panel = (d: any) => ({
        layout: d.layout,
        placement: d.side,
        pushContainer: d.push,
        size: d.size === '90' ? 90 : d.size || undefined,
        modelValue: d.open,
        'onUpdate:modelValue': (v: boolean) => (d.open = v),
    });
    // each bar may sit at the one or the other place; it never sits at both
    const place = (what: string, n: number, draw: () => any) => (s.at[what] === n ? draw() : null);
    const all = (n: number) => [
        place('header', n, () => s.header.on && h(VsHeader, { key: `h${n}`, ...bar(s.header) })),
        place('footer', n, () => s.footer.on && h(Wrapped, { key: `f${n}`, ...bar(s.footer) })),
        ...Object.keys(s.drawers).map((d) => place(d, n, () => s.drawers[d].on && h(VsDrawer, { key: `${d}${n}`, class: `d-${d}`, ...panel(s.drawers[d]) }))),
    ];

    const sizes = (v: string) => {
        const parts = v.replace(/^calc\((.*)\)$/, '$1').split('+').map((x) => x.trim()).filter(Boolean);
        return [parts.filter((p) => p.endsWith('rem')).join('+'), parts.filter((p) => !p.endsWith('rem')).join('+')];
    };
    const pads = (el: HTMLElement) => ({ top: sizes(el.style.paddingTop), bottom: sizes(el.style.paddingBottom), left: sizes(el.style.paddingLeft), right: sizes(el.style.paddingRight) });

    return {
        async start(c) {
            fakeTimers();
            s = reactive({ header: noBar, footer: noBar, drawers: {} as any, area: true, at: { header: 0, footer: 0 } as any });
            for (const d of c.drawers) {
                s.drawers[d] = { on: false };
                s.at[d] = 0;
            }
            root = document.createElement('div');
            document.body.appendChild(root);
            app = createApp({
                render: () =>
                    h(VsLayout, null, {
                        default: () => [
                            h('div', { key: 'a' }, all(0)),
                            h(VsContainer, { key: 'c', id: 'outer', layout: s.area }, { default: () => [h(VsContainer, { id: 'inner', layout: true })] }),
                            h('div', { key: 'b' }, all(1)),
                        ],
                    }),
            });
            const ctx = appContext()._context;
            Object.assign(app._context.provides, ctx.provides);
            Object.assign(app._context.components, ctx.components);
            app.mount(root);
            await settle();
        },
        async step(a) {
            if (a.op === 'header' || a.op === 'footer') s[a.op] = { ...a.to };
            else if (a.op === 'area') s.area = a.to;
            else if (a.op === 'drawer') s.drawers[a.drawer] = { ...a.to };
            else if (a.op === 'both') for (const d of Object.keys(a.to)) s.drawers[d] = { ...a.to[d] };
            else {
                if (a.what in s.drawers) s.drawers[a.what] = { ...a.to };
                else s[a.what] = { ...a.to };
                s.at[a.what] = 1 - s.at[a.what];
            }
            await settle();
        },
        observe() {
            const clear: any = Object.keys(s.drawers).length ? {} : [];
            for (const d of Object.keys(s.drawers)) {
                const el = root.querySelector(`.d-${d} .vs-drawer-content`) as HTMLElement;
                clear[d] = el ? [el.style.top, el.style.bottom, el.style.paddingTop, el.style.paddingBottom] : 'gone';
            }
            return { area: pads(root.querySelector('#outer')!), inner: pads(root.querySelector('#inner')!), clear };
        },
        stop() {
            app.unmount();
            root.remove();
            vi.useRealTimers();
        },
    };
}
