import { createApp, h, reactive, shallowRef, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';

const FILES = [
    new File(['1'], 'a.txt', { type: 'text/plain' }),
    new File(['2'], 'b.TXT', { type: '' }),
    new File(['3'], 'c.png', { type: 'image/png' }),
    new File(['44'], 'a.txt', { type: 'text/plain' }),
];

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let comp: any;
    let changes: any[] = [];
    let dropped: any[] = [];
    const model = shallowRef<any>([]);
    const state = reactive({ disabled: false });
    const files = (l: number[]) => l.map((n) => FILES[n - 1]);
    const name = (v: any) => (v === null ? [] : Array.isArray(v) ? v.map((f) => FILES.indexOf(f) + 1) : `?${v}`);
    const area = () => root.querySelector('.vs-file-drop')!;
    const drag = (type: string, list: File[] = []) => {
        const e: any = new Event(type, { bubbles: true, cancelable: true });
        e.dataTransfer = { files: list };
        area().dispatchEvent(e);
    };

    return {
        async start(c) {
            fakeTimers();
            model.value = files(c.val);
            state.disabled = false;
            root = document.createElement('div');
            document.body.appendChild(root);
            const C: any = (VlossomComponents as any).VsFileDrop;
            const { multiple, limits, accept, required } = c.cfg;
            const props: any = { multiple, accept, required };
            if (limits[0] > 0) props.min = limits[0];
            // numbers may be written as texts
            if (limits[1] < 9) props.max = String(limits[1]);
            app = createApp({
                render: () =>
                    h(C, {
                        ...props,
                        disabled: state.disabled,
                        ref: (r: any) => (comp = r),
                        modelValue: model.value,
                        'onUpdate:modelValue': (v: any) => (model.value = v),
                        onChange: (v: any) => changes.push(name(v)),
                        onDrop: (v: any) => dropped.push(name(v)),
                    }),
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            Object.assign(app._context.components, appContext()._context.components);
            app.mount(root);
            await settle();
        },
        async step(a) {
            changes = [];
            dropped = [];
            let ok: any;
            if (a.op === 'dialog') {
                const input = root.querySelector('input')!;
                Object.defineProperty(input, 'files', { value: files(a.files), configurable: true });
                input.dispatchEvent(new Event('change', { bubbles: true }));
            } else if (a.op === 'drop') drag('drop', files(a.files));
            else if (a.op === 'remove') click(root.querySelectorAll('.vs-file-drop-file .vs-chip-close-button')[a.i - 1], 'close button');
            else if (a.op === 'wipe') click(root.querySelector('.vs-file-drop-close-button'), 'clear button');
            else if (a.op === 'clear') comp.clear();
            else if (a.op === 'assign') model.value = files(a.files);
            else if (a.op === 'nothing') model.value = null as any;
            else if (a.op === 'validate') ok = comp.validate();
            else if (a.op === 'over') {
                drag('dragenter');
                drag('dragover');
            } else if (a.op === 'leave') drag('dragleave');
            else if (a.op === 'switch') state.disabled = !state.disabled;
            await settle();
            await advance(10);
            return { changes, dropped, ...(ok === undefined ? {} : { ok }) };
        },
        observe() {
            const chips = Array.from(root.querySelectorAll('.vs-file-drop-file')).map((n) => n.textContent!.replace(/\s+/g, ''));
            const bound = name(model.value);
            // files of one name are told apart by their size
            const shown = chips.map((t) => FILES.findIndex((f) => t.startsWith(f.name) && t.includes(`(${f.size}`)) + 1);
            return {
                bound,
                shown,
                drag: area().classList.contains('vs-dragging'),
                messages: root.querySelectorAll('.vs-message').length,
            };
        },
        async stop() {
            app.unmount();
            root.remove();
            await advance(1000);
        },
    };
}
