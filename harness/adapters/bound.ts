import { createApp, h, nextTick, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext, clearOverlays, vlossom } from '#h/app';
import { advance, click, deferred, fakeTimers, key, settle, type Adapter } from '#h/core';

const { VsModal, VsDrawer } = VlossomComponents as any;

export default function create(): Adapter {
    const $vs = vlossom();
    let app: App;
    let root: HTMLElement;
    let s: any;
    let cfg: any;
    let inst: any;
    let out: any;
    let pending: ReturnType<typeof deferred>[] = [];
    const reset = () => (out = { events: [], asked: 0 });

    const guards: any = {
        none: undefined,
        yes: () => (out.asked++, true),
        no: () => (out.asked++, Promise.resolve(false)),
        later: () => {
            out.asked++;
            const d = deferred<boolean>();
            pending.push(d);
            return d.promise;
        },
    };

    return {
        async start(c) {
            fakeTimers();
            cfg = c.cfg;
            reset();
            s = reactive({ there: true, flag: c.flag });
            root = document.createElement('div');
            document.body.appendChild(root);
            app = createApp({
                render: () =>
                    s.there &&
                    h(
                        cfg.kind === 'modal' ? VsModal : VsDrawer,
                        {
                            ref: (r: any) => (inst = r),
                            modelValue: s.flag,
                            'onUpdate:modelValue': (v: boolean) => (s.flag = v),
                            onOpen: () => out.events.push('open'),
                            onClose: () => out.events.push('close'),
                            id: cfg.named ? 'mine' : '',
                            dimmed: true,
                            dimClose: cfg.dim,
                            escClose: cfg.esc,
                            ...(cfg.kind === 'modal' ? { beforeClose: guards[cfg.guard] } : {}),
                        },
                        { default: () => h('p', { class: 'content' }, 'content') },
                    ),
            });
            const ctx = appContext()._context;
            Object.assign(app._context.provides, ctx.provides);
            Object.assign(app._context.components, ctx.components);
            Object.assign(app.config.globalProperties, appContext().config.globalProperties);
            app.mount(root);
            await settle();
        },
        async step(a) {
            reset();
            if (a.op === 'flag') s.flag = a.to;
            else if (a.op === 'blink') {
                s.flag = !s.flag;
                s.flag = !s.flag;
                await nextTick();
            } else if (a.op === 'escape') key('Escape');
            else if (a.op === 'backdrop') {
                const all = document.querySelectorAll(cfg.kind === 'modal' ? '.vs-modal-node' : '.vs-drawer');
                // one that is leaving may still be there
                click(all[all.length - 1]?.querySelector('.vs-dimmed'), 'backdrop');
            } else if (a.op === 'service') cfg.kind === 'modal' ? void $vs.modal.close() : inst.closeDrawer();
            else if (a.op === 'method') inst.openDrawer();
            else if (a.op === 'clear') $vs.modal.clear();
            else if (a.op === 'answer') pending.splice(a.k - 1, 1)[0].resolve(a.b);
            else if (a.op === 'there') s.there = a.to;
            await settle();
            if (a.op === 'wait') await advance(700);
            return out;
        },
        observe() {
            const el = cfg.kind === 'modal' ? document.querySelector('.vs-modal-node .content') : (root.querySelector('.vs-drawer') as HTMLElement);
            return { flag: s.flag, shown: !!el && (cfg.kind === 'modal' || (el as HTMLElement).style.display !== 'none') };
        },
        async stop() {
            for (const d of pending.splice(0)) d.resolve(false);
            app.unmount();
            root.remove();
            await clearOverlays(['body']);
        },
    };
}
