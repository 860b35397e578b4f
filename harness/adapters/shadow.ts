import { createApp, h, reactive, resolveDirective, withDirectives, type App } from 'vue';
import { settle, type Adapter } from '#h/core';
import { scrollShadow } from '@/directives';

const VALUE: any = { none: undefined, yes: true, no: false };

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let el: HTMLElement;
    const page = reactive({ there: true, val: 'none', cls: false, n: 0 });
    let way = 'no';

    // how far an element scrolls is not part of what is rendered
    function scrolls(to: string) {
        way = to;
        el.style.overflowX = way === 'x' ? 'scroll' : '';
        el.style.overflowY = way === 'y' ? 'scroll' : way === 'auto' || way === 'fits' ? 'auto' : '';
    }

    return {
        async start(c) {
            Object.assign(page, { there: true, val: c.val, cls: false, n: 0 });
            way = c.scrolls;
            root = document.createElement('div');
            document.body.appendChild(root);
            const grab = (node: any) => {
                el = node.el;
                Object.defineProperty(el, 'scrollHeight', { get: () => (way === 'auto' ? 200 : 100), configurable: true });
                Object.defineProperty(el, 'clientHeight', { get: () => 100, configurable: true });
                if (c.own) el.style.containerType = c.own;
                scrolls(way);
            };
            app = createApp({
                setup() {
                    const directive = resolveDirective('scroll-shadow')!;
                    return () =>
                        page.there
                            ? withDirectives(h('div', { class: page.cls ? 'other' : 'base', 'data-n': page.n, onVnodeBeforeMount: grab }), [[directive, VALUE[page.val]]])
                            : null;
                },
            });
            app.directive('scroll-shadow', scrollShadow);
            app.mount(root);
            await settle();
        },
        async step(a) {
            if (a.op === 'value') page.val = a.v;
            else if (a.op === 'scrolls') scrolls(a.s);
            else if (a.op === 'class') page.cls = !page.cls;
            else if (a.op === 'render') page.n++;
            else page.there = a.op === 'mount';
            await settle();
        },
        observe() {
            const yes = (name: string) => (el.classList.contains(name) ? 'yes' : 'no');
            return { shadow: yes('vs-scroll-shadow'), type: el.style.containerType, other: yes('other') };
        },
        stop() {
            app.unmount();
            root.remove();
        },
    };
}
