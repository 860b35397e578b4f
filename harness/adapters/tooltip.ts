import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from '#h/app';
import { advance, click, fakeTimers, key, type Adapter } from '#h/core';
import { countListeners } from '#h/listening';
import { vi } from 'vitest';

const { VsTooltip } = VlossomComponents as any;

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let s: any;
    let cfg: any;
    let listening: ReturnType<typeof countListeners>;

    const trigger = () => root.querySelector('#trigger')!;
    const area = () => (cfg.place === 'slot' ? root.querySelector('.vs-tooltip-trigger')! : trigger());
    const panel = () => document.querySelector('.vs-tooltip');
    function fire(el: Element | null, type: string) {
        if (!el) throw new Error(`nothing to send ${type} to`);
        el.dispatchEvent(type.startsWith('focus') ? new FocusEvent(type, { bubbles: true }) : new MouseEvent(type));
    }
    const leave = (at: string) =>
        at === 'tip' ? fire(panel(), 'mouseleave') : at === 'trigger' && fire(area(), cfg.device === 'keys' ? 'focusout' : 'mouseleave');
    const enter = (at: string) =>
        at === 'tip' ? fire(panel(), 'mouseenter') : at === 'trigger' && fire(area(), cfg.device === 'keys' ? 'focusin' : 'mouseenter');

    return {
        async start(c) {
            fakeTimers();
            cfg = c.cfg;
            listening = countListeners([[document, 'scroll'], [window, 'resize']]);
            s = reactive({ there: true, disabled: c.disabled });
            root = document.createElement('div');
            document.body.appendChild(root);
            const delay = cfg.delay ? { enterDelay: cfg.delay, leaveDelay: String(cfg.delay) } : {};
            const button = () => h('button', { id: 'trigger' });
            app = createApp({
                render: () => [
                    cfg.place === 'target' && button(),
                    s.there &&
                        h(
                            VsTooltip,
                            { clickable: cfg.clickable, contentsHover: cfg.contents, disabled: s.disabled, target: cfg.place === 'target' ? '#trigger' : undefined, ...delay },
                            { tooltip: () => 'contents', ...(cfg.place === 'slot' ? { default: button } : {}) },
                        ),
                ],
            });
            const ctx = appContext()._context;
            Object.assign(app._context.provides, ctx.provides);
            Object.assign(app._context.components, ctx.components);
            app.mount(root);
            await advance(0);
        },
        async step(a) {
            let out: any;
            if (a.op === 'move') {
                leave(a.from);
                if (a.from === 'trigger' && a.to === 'tip') await advance(0);
                enter(a.to);
            } else if (a.op === 'click') click(trigger(), 'trigger');
            else if (a.op === 'escape') out = key('Escape').defaultPrevented;
            else if (a.op === 'disable') s.disabled = a.to;
            else if (a.op === 'there') s.there = a.to;
            // watchers run between the delays
            for (let left = a.ms ?? 0; left >= 0; left -= 100) await advance(Math.min(left, 100));
            return out;
        },
        observe() {
            return { shown: !!panel(), listening: listening.value };
        },
        stop() {
            app.unmount();
            root.remove();
            vi.runAllTimers();
            listening.stop();
            vi.useRealTimers();
        },
    };
}
