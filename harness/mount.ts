// Mounts one component of the library with reactive props; events are collected by name.
import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from './app';

export interface Mounted {
    app: App;
    root: HTMLElement;
    props: any;
    events: [string, any][];
    inst: any;
    unmount(): void;
}

/** `bind` names the two way bindings kept in `props`; `listen` the further events to record. */
export function mountComponent(name: string, initial: any, { bind = [], listen = [], slots = {} }: { bind?: string[]; listen?: string[]; slots?: any } = {}): Mounted {
    const ctx = appContext()._context;
    const root = document.createElement('div');
    document.body.appendChild(root);
    const props = reactive(initial);
    const m: Mounted = { app: null as any, root, props, events: [], inst: null, unmount: () => {} };
    const on: any = {};
    for (const b of bind)
        on[`onUpdate:${b}`] = (v: any) => {
            props[b] = v;
            m.events.push([`update:${b}`, v]);
        };
    for (const l of listen) {
        const key = `on${l[0].toUpperCase()}${l.slice(1).replace(/-(\w)/g, (_, c) => c.toUpperCase())}`;
        on[key] = (...args: any[]) => m.events.push([l, args.length > 1 ? args : args[0]]);
    }
    const comp: any = (VlossomComponents as any)[name];
    if (!comp) throw new Error(`no component ${name}`);
    m.app = createApp({ render: () => h(comp, { ...props, ...on, ref: (r: any) => (m.inst = r) }, slots) });
    Object.assign(m.app._context.provides, ctx.provides);
    Object.assign(m.app._context.components, ctx.components);
    m.app.mount(root);
    m.unmount = () => {
        m.app.unmount();
        root.remove();
    };
    return m;
}
