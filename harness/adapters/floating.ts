import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from '#h/app';
import { advance, fakeTimers, type Adapter } from '#h/core';
import { countListeners } from '#h/listening';
import { vi } from 'vitest';

const { VsFloating } = VlossomComponents as any;

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let s: any;
    let listening: ReturnType<typeof countListeners>;

    return {
        async start(c) {
            fakeTimers();
            listening = countListeners([[document, 'scroll'], [window, 'resize']]);
            s = reactive({ there: true, flag: c.flag, disabled: c.disabled });
            root = document.createElement('div');
            document.body.appendChild(root);
            const delay = c.cfg.delay ? { enterDelay: c.cfg.delay, leaveDelay: String(c.cfg.delay) } : {};
            app = createApp({
                render: () => [
                    h('button', { id: 'anchor' }),
                    s.there &&
                        h(
                            VsFloating,
                            { target: '#anchor', disabled: s.disabled, noAnimation: c.cfg.still, modelValue: s.flag, 'onUpdate:modelValue': (v: boolean) => c.cfg.bound && (s.flag = v), ...delay },
                            { default: () => h('p', { class: 'panel' }) },
                        ),
                ],
            });
            const ctx = appContext()._context;
            Object.assign(app._context.provides, ctx.provides);
            Object.assign(app._context.components, ctx.components);
            app.mount(root);
        },
        async step(a) {
            if (a.op === 'flag') s.flag = a.to;
            else if (a.op === 'disable') s.disabled = a.to;
            else if (a.op === 'there') s.there = a.to;
            for (let left = a.ms ?? 0; left >= 0; left -= 100) await advance(Math.min(left, 100));
        },
        observe() {
            return { shown: !!document.querySelector('.panel'), listening: listening.value, flag: s.flag };
        },
        stop() {
            app.unmount();
            root.remove();
            vi.runAllTimers();
            listening.stop();
            vi.useRealTimers();
        },
    };
}
