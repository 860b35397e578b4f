import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, fakeTimers, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';
import { Watcher } from '#h/watcher';

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let comp: any;
    let scrolled: any[] = [];
    let view = new Set<number>();
    const undo: (() => void)[] = [];
    const page = reactive({ kids: [] as number[], off: false, margin: 0 });
    const kid = (i: number) => root.querySelector(`[data-kid="${i}"]`) as HTMLElement | null;
    const self = () => root.querySelector('.vs-visible-render') as HTMLElement;
    const frame = () => [...Watcher.all].forEach((w) => w.frame((el) => view.has(Number((el as HTMLElement).dataset.kid))));
    const put = (target: any, name: string, value: any) => {
        const old = Object.getOwnPropertyDescriptor(target, name);
        Object.defineProperty(target, name, { value, configurable: true, writable: true });
        undo.push(() => (old ? Object.defineProperty(target, name, old) : delete target[name]));
    };

    return {
        async start(c) {
            fakeTimers();
            Watcher.all.clear();
            put(globalThis, 'IntersectionObserver', Watcher);
            put(window, 'scrollY', 7);
            put(window, 'scrollTo', (o: any) => scrolled.push('page', o.top));
            put(Element.prototype, 'scrollTo', function (this: Element, o: any) {
                scrolled.push(this === root ? 'outer' : this === self() ? 'self' : '?', o.top);
            });
            put(Element.prototype, 'getBoundingClientRect', function (this: HTMLElement) {
                const top = this.dataset.kid ? 30 + 100 * Number(this.dataset.kid) : 30;
                return { top, left: 0, bottom: top + 20, right: 20, width: 20, height: 20, x: 0, y: top } as DOMRect;
            });
            // everything may scroll as far as its style goes, but only one element overflows
            const auto = c.cfg.how === 'auto';
            const extent = (full: boolean) => ({
                configurable: true,
                get(this: Element) {
                    return full && (c.cfg.root === 'outer' ? this === root : c.cfg.root === 'self' && this === self()) ? 200 : 100;
                },
            });
            for (const [name, full] of [['scrollHeight', true], ['clientHeight', false]] as const) {
                const old = Object.getOwnPropertyDescriptor(Element.prototype, name)!;
                Object.defineProperty(Element.prototype, name, extent(full));
                undo.push(() => Object.defineProperty(Element.prototype, name, old));
            }
            const style = (own: string) => (auto ? 'overflow-y: auto; overflow-x: scroll' : c.cfg.root === own ? 'overflow-y: scroll' : '');
            Object.assign(page, { kids: c.kids.flatMap((on: boolean, i: number) => (on ? [i + 1] : [])), off: c.off, margin: 0 });
            view = new Set(c.inview.flatMap((on: boolean, i: number) => (on ? [i + 1] : [])));
            root = document.createElement('div');
            root.style.cssText = style('outer');
            document.body.appendChild(root);
            const C: any = (VlossomComponents as any).VsVisibleRender;
            const kids = () => page.kids.map((i) => h('p', { key: i, 'data-kid': i }));
            app = createApp({
                render: () =>
                    h(
                        C,
                        {
                            ref: (r: any) => (comp = r),
                            disabled: page.off,
                            rootMargin: `${page.margin}px`,
                            style: style('self'),
                            ...(c.cfg.inner ? { selector: '.inner' } : {}),
                        },
                        () => (c.cfg.inner ? [h('i'), h('ul', { class: 'inner' }, kids())] : kids()),
                    ),
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            app.mount(root);
            await settle();
            for (const el of [root, self()]) Object.defineProperty(el, 'scrollTop', { value: 7, configurable: true });
        },
        async step(a) {
            scrolled = [];
            if (a.op === 'add') page.kids = [...page.kids, a.i];
            else if (a.op === 'remove') page.kids = page.kids.filter((i) => i !== a.i);
            else if (a.op === 'swap') page.kids = [...page.kids.filter((i) => i !== a.i), a.j];
            else if (a.op === 'scroll') view = new Set(a.view);
            else if (a.op === 'frame') frame();
            else if (a.op === 'switch') page.off = !page.off;
            else if (a.op === 'blink') {
                page.off = !page.off;
                await settle();
                page.off = !page.off;
            } else if (a.op === 'margin') page.margin = 1 - page.margin;
            else if (a.op === 'goto') {
                comp.scrollToElement(kid(a.i));
                view = new Set([a.i]);
                await advance(50);
                frame();
            }
            await settle();
            return { scrolled };
        },
        observe() {
            const live = [...Watcher.all];
            const io = live[0];
            return {
                marks: [1, 2].map((i) => {
                    const mark = kid(i)?.dataset.ioVisible;
                    return kid(i) ? ({ true: 'yes', false: 'no' } as any)[mark!] ?? '?' : '-';
                }),
                watching: live.length,
                root: !io ? '-' : !io.options.root ? 'page' : io.options.root === root ? 'outer' : io.options.root === self() ? 'self' : '?',
                margin: io ? io.options.rootMargin : '-',
            };
        },
        async stop() {
            app.unmount();
            await settle();
            const left = Watcher.all.size;
            root.remove();
            await advance(1000);
            undo.splice(0).reverse().forEach((u) => u());
            if (left) throw new Error(`${left} observers left behind`);
        },
    };
}
