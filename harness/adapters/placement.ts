import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from '#h/app';
import { advance, fakeTimers, type Adapter } from '#h/core';
import { vi } from 'vitest';

const { VsFloating } = VlossomComponents as any;

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let s: any;
    // the page as the browser would measure it
    let geo: any;
    const observers = new Set<any>();
    const nativeRect = Element.prototype.getBoundingClientRect;
    const nativeObserver = (window as any).ResizeObserver;
    const set = (name: string, value: number) => Object.defineProperty(window, name, { value, configurable: true, writable: true });

    return {
        async start(c) {
            fakeTimers();
            geo = { at: c.at, big: false };
            set('innerWidth', 600);
            set('innerHeight', 500);
            set('scrollX', 0);
            set('scrollY', 0);
            Element.prototype.getBoundingClientRect = function (this: Element) {
                const rect = (x: number, y: number, width: number, height: number) => ({ x, y, left: x, top: y, width, height, right: x + width, bottom: y + height }) as any;
                if (this.id === 'anchor') return rect(geo.at[0], geo.at[1], 80, 40);
                if (this.classList.contains('vs-floating')) return rect(0, 0, geo.big ? 240 : 100, geo.big ? 300 : 60);
                return nativeRect.call(this);
            };
            (window as any).ResizeObserver = class {
                seen = new Set<Element>();
                constructor(public f: any) {
                    observers.add(this);
                }
                observe(el: Element) {
                    this.seen.add(el);
                }
                unobserve(el: Element) {
                    this.seen.delete(el);
                }
                disconnect() {
                    this.seen.clear();
                }
            };
            s = reactive({ flag: false, side: c.cfg.side });
            root = document.createElement('div');
            document.body.appendChild(root);
            const { align, margin, follow } = c.cfg;
            app = createApp({
                render: () => [
                    h('div', { id: 'box' }, [h('button', { id: 'anchor' })]),
                    h(
                        VsFloating,
                        { target: '#anchor', placement: s.side, align, margin, followWidth: follow, enterDelay: 0, noAnimation: true, modelValue: s.flag, 'onUpdate:modelValue': (v: boolean) => (s.flag = v) },
                        { default: ({ placement }: any) => h('p', { class: 'panel' }, placement) },
                    ),
                ],
            });
            const ctx = appContext()._context;
            Object.assign(app._context.provides, ctx.provides);
            Object.assign(app._context.components, ctx.components);
            app.mount(root);
            await advance(0);
        },
        async step(a) {
            if (a.op === 'scroll') {
                geo.at = a.to;
                root.querySelector('#box')!.dispatchEvent(new Event('scroll'));
            } else if (a.op === 'page') {
                set('scrollX', a.to);
                set('scrollY', a.to);
                document.dispatchEvent(new Event('scroll', { bubbles: true }));
            } else if (a.op === 'resize') {
                set('innerHeight', a.to ? 900 : 500);
                window.dispatchEvent(new Event('resize'));
            } else if (a.op === 'grow') {
                geo.big = a.to;
                const panel = document.querySelector('.vs-floating');
                for (const o of observers) if (panel && o.seen.has(panel)) o.f([], o);
            } else if (a.op === 'show') {
                s.flag = a.to;
                await advance(0);
                await advance(1);
            } else if (a.op === 'ask') {
                s.side = a.to;
            }
            await advance(a.ms ?? 0);
        },
        observe() {
            const el = document.querySelector('.vs-floating') as HTMLElement;
            if (!el) return { place: 'hidden' };
            const px = (v: string) => (v === '' ? 0 : Number(v.replace(/px$/, '')));
            return { place: { side: el.textContent, x: px(el.style.left), y: px(el.style.top), width: px(el.style.width) } };
        },
        stop() {
            app.unmount();
            root.remove();
            vi.runAllTimers();
            observers.clear();
            Element.prototype.getBoundingClientRect = nativeRect;
            (window as any).ResizeObserver = nativeObserver;
            set('scrollX', 0);
            set('scrollY', 0);
            vi.useRealTimers();
        },
    };
}
