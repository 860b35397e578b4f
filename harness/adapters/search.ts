import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';

const CANDIDATES = ['Apple', 'a.b', 'axB', 'x[x'];

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let comp: any;
    let searches: any[] = [];
    let aa = false;
    let re = false;
    const page = reactive({ text: '', sens: false, rgx: false });
    const field = () => root.querySelector('input') as HTMLInputElement;
    const button = (n: number) => root.querySelectorAll('.vs-search-input-toggle')[n];

    return {
        async start(c) {
            fakeTimers();
            Object.assign(page, { text: c.text, sens: c.sens, rgx: c.rgx });
            ({ aa, re } = c.cfg);
            root = document.createElement('div');
            document.body.appendChild(root);
            const C: any = (VlossomComponents as any).VsSearchInput;
            app = createApp({
                render: () =>
                    h(C, {
                        useCaseSensitive: c.cfg.aa,
                        useRegex: c.cfg.re,
                        ref: (r: any) => (comp = r),
                        modelValue: page.text,
                        caseSensitive: page.sens,
                        regex: page.rgx,
                        'onUpdate:modelValue': (v: any) => (page.text = v),
                        'onUpdate:caseSensitive': (v: any) => (page.sens = v),
                        'onUpdate:regex': (v: any) => (page.rgx = v),
                        onSearch: (v: any) => searches.push(v),
                    }),
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            Object.assign(app._context.components, appContext()._context.components);
            app.mount(root);
            await settle();
            // a search announced at the very start is left open
            await advance(1000);
        },
        async step(a) {
            searches = [];
            if (a.op === 'type') {
                field().value = a.t;
                field().dispatchEvent(new Event('input', { bubbles: true }));
            } else if (a.op === 'clear') comp.clear();
            else if (a.op === 'assign') page.text = a.t;
            else if (a.op === 'case' && a.by === 'page') page.sens = !page.sens;
            else if (a.op === 'regex' && a.by === 'page') page.rgx = !page.rgx;
            else if (a.op === 'case') click(button(0), 'case button');
            else if (a.op === 'regex') click(button(aa ? 1 : 0), 'pattern button');
            else if (a.op === 'wait') await advance(200);
            await settle();
            return { searches };
        },
        observe() {
            const lit = (n: number) => (button(n).classList.contains('vs-search-input-toggle-on') ? 'on' : 'off');
            const buttons = [aa ? lit(0) : 'none', re ? lit(aa ? 1 : 0) : 'none'];
            if (root.querySelectorAll('.vs-search-input-toggle').length !== Number(aa) + Number(re)) buttons.push('?');
            return { buttons, text: field().value, bound: page.text, sens: page.sens, rgx: page.rgx, matches: CANDIDATES.map((t) => comp.match(t)) };
        },
        async stop() {
            app.unmount();
            root.remove();
            await advance(1000);
        },
    };
}
