import { createApp, h, ref, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let comp: any;
    let changes: any[] = [];
    let updates: any[] = [];
    let kind = '';
    const model = ref<any>();
    const real = (v: string) => (kind === 'number' ? (v === '' ? null : Number(v)) : v);
    // a number must be bound as one, an empty text as a text
    const name = (v: any) => {
        if (kind === 'number') return v === null || v === undefined ? '' : typeof v === 'number' ? String(v) : `?${JSON.stringify(v)}`;
        return typeof v === 'string' ? v : `?${JSON.stringify(v) ?? 'undefined'}`;
    };
    const field = () => root.querySelector('input, textarea') as HTMLInputElement;
    const write = (text: string) => {
        field().value = text;
        field().dispatchEvent(new Event('input', { bubbles: true }));
    };

    return {
        async start(c) {
            fakeTimers();
            kind = c.cfg.kind;
            model.value = real(c.val);
            root = document.createElement('div');
            document.body.appendChild(root);
            const C: any = kind === 'textarea' ? (VlossomComponents as any).VsTextarea : (VlossomComponents as any).VsInput;
            const props: any = kind === 'textarea' ? {} : { type: kind };
            if (c.cfg.mod !== 'none') props.modelModifiers = { [c.cfg.mod]: true };
            app = createApp({
                render: () =>
                    h(C, {
                        ...props,
                        ref: (r: any) => (comp = r),
                        modelValue: model.value,
                        'onUpdate:modelValue': (v: any) => {
                            updates.push(name(v));
                            model.value = v;
                        },
                        onChange: (v: any) => changes.push(name(v)),
                    }),
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            Object.assign(app._context.components, appContext()._context.components);
            app.mount(root);
            await settle();
        },
        async step(a) {
            changes = [];
            updates = [];
            if (a.op === 'type') write(a.text);
            else if (a.op === 'twice') {
                write(a.text);
                write(a.then);
            } else if (a.op === 'wipe') click(root.querySelector('.vs-clear-button.show:not(:disabled)'), 'clear button');
            else if (a.op === 'clear') comp.clear();
            else if (a.op === 'assign') model.value = real(a.v);
            else if (a.op === 'nothing') model.value = a.n === 'null' ? null : undefined;
            else if (a.op === 'meet') {
                write(a.text);
                model.value = real(a.v);
            }
            await settle();
            await advance(10);
            // an end on click or blur changes nothing
            field().dispatchEvent(new Event('change', { bubbles: true }));
            field().dispatchEvent(new Event('blur'));
            await settle();
            const end = name(model.value);
            return { changes, foreign: a.op !== 'meet' && updates.some((u) => u !== end) };
        },
        observe() {
            const value = name(model.value);
            const shown = field().value;
            return { value, agree: kind === 'number' && value !== '' && shown !== '' ? Number(shown) === Number(value) : shown === value };
        },
        async stop() {
            app.unmount();
            root.remove();
            await advance(1000);
        },
    };
}
