import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, click, fakeTimers, key, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';
import { abstract, bound, fieldNode, KINDS, setModel } from '#h/fields';

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let f: any;
    let st: any;
    const press = (el: Element | null | undefined) => {
        // a browser does not click on disabled buttons
        if (el && !(el as any).disabled) click(el);
    };
    const drop = (to: string) => {
        const e: any = new Event('drop', { bubbles: true, cancelable: true });
        e.dataTransfer = { files: KINDS[f.kind].values[to] };
        root.querySelector('.vs-file-drop')!.dispatchEvent(e);
    };
    const last = (list: ArrayLike<Element>) => list[list.length - 1];

    return {
        async start(c, obs) {
            fakeTimers();
            appContext();
            f = bound(c.cfg.kind, obs.value, { disabled: c.own === 'disabled', readonly: c.own === 'readonly' });
            if (f.kind === 'checkbox') f.props.checkLabel = 'label';
            if (f.kind === 'multiselect') f.props.selectAll = true;
            if (f.kind === 'radio') f.props.radioLabel = 'label';
            st = reactive({ disabled: c.form === 'disabled', readonly: c.form === 'readonly' });
            root = document.createElement('div');
            document.body.appendChild(root);
            const F: any = (VlossomComponents as any).VsForm;
            app = createApp({ render: () => h(F, { ...st }, { default: () => [fieldNode(f)] }) });
            Object.assign(app._context.provides, appContext()._context.provides);
            Object.assign(app._context.components, appContext()._context.components);
            app.mount(root);
            await settle();
        },
        async step(a) {
            if (a.op === 'own') Object.assign(f.props, { disabled: a.to === 'disabled', readonly: a.to === 'readonly' });
            else if (a.op === 'form') Object.assign(st, { disabled: a.to === 'disabled', readonly: a.to === 'readonly' });
            else if (a.op === 'assign') setModel(f, a.v);
            else if (a.op === 'clear') f.ref.clear();
            else if (a.op === 'enter') await KINDS[f.kind].user!(root, a.v, abstract(f.kind, f.model.value));
            else if (a.op === 'label') (root.querySelector('label') as HTMLElement).click();
            else if (a.op === 'drop') drop(a.v);
            else if (a.op === 'wipe') press(last(root.querySelectorAll('.vs-clear-button, .vs-select-clear-button, .vs-file-drop-close-button')));
            else if (a.op === 'chip') press(last(root.querySelectorAll('.vs-chip-close-button')));
            else if (a.op === 'all') press(document.querySelector('.vs-select-all'));
            else if (a.op === 'open') {
                press(root.querySelector('.vs-select-trigger'));
                await advance(100);
            } else if (a.op === 'keys') {
                const el: any = root.querySelector('.vs-select-trigger, input[type=file]');
                el.focus();
                await settle();
                for (const k of ['ArrowDown', 'ArrowDown', 'Enter', 'Space', 'Delete', 'Backspace']) {
                    key(k, document.activeElement ?? document);
                    await settle();
                }
                el.blur();
            }
            await settle();
            if (f.kind === 'search') await advance(500);
            if (['wipe', 'chip', 'keys', 'all', 'enter'].includes(a.op) && document.querySelector('.vs-select-options')) {
                if (f.ref.isOpen) press(root.querySelector('.vs-select-trigger'));
                await advance(600);
            }
        },
        observe() {
            return { value: abstract(f.kind, f.model.value), shows: KINDS[f.kind].displayed(root) };
        },
        async stop() {
            app.unmount();
            root.remove();
            await settle();
            await advance(1000);
        },
    };
}
