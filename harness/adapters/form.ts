import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, fakeTimers, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';
import { abstract, bound, fieldNode, KINDS, setModel } from '#h/fields';

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let form: any;
    let fields: any[] = [];
    let st: any;
    let bad: string[] = [];
    const idOf = (n: number) => `name-${n}`;
    const rootOf = (i: number) => root.querySelector(`[data-slot="${i}"]`) as HTMLElement | null;

    return {
        async start(c, obs) {
            fakeTimers();
            appContext();
            fields = c.kinds.map((k: string, i: number) => bound(k, obs.fields[i].v, { required: true, id: idOf(c.name[i]) }));
            st = reactive({ there: c.there, disabled: false, readonly: false });
            root = document.createElement('div');
            document.body.appendChild(root);
            const F: any = (VlossomComponents as any).VsForm;
            app = createApp({
                render: () =>
                    h(
                        F,
                        { ref: (r: any) => (form = r), disabled: st.disabled, readonly: st.readonly, onError: (ids: string[]) => (bad = ids) },
                        { default: () => fields.map((f, i) => (st.there[i] ? h('div', { key: i, 'data-slot': i }, [fieldNode(f)]) : null)) },
                    ),
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            Object.assign(app._context.components, appContext()._context.components);
            app.mount(root);
            await settle();
        },
        async step(a) {
            const i = a.i - 1;
            const f = fields[i];
            let out: any;
            if (a.op === 'mount') {
                f.seen.changed = false;
                f.seen.valid = true;
                st.there[i] = true;
            } else if (a.op === 'unmount') st.there[i] = false;
            else if (a.op === 'user') {
                await KINDS[f.kind].user!(rootOf(i)!, a.v, abstract(f.kind, f.model.value));
            } else if (a.op === 'assign') setModel(f, a.v);
            else if (a.op === 'fieldClear') f.ref.clear();
            else if (a.op === 'fieldValidate') out = f.ref.validate();
            else if (a.op === 'validate') {
                bad = [];
                const asked = Array.from({ length: a.times }, () => form.validate());
                const answers = await Promise.all(asked);
                out = { ok: answers.every((x) => x), bad: fields.map((x) => bad.includes(x.props.id)) };
            } else if (a.op === 'clear') for (let n = 0; n < a.times; n++) form.clear();
            else if (a.op === 'names') fields.forEach((x, k) => (x.props.id = idOf(a.to[k])));
            else if (a.op === 'disabled') st.disabled = a.on;
            else if (a.op === 'readonly') st.readonly = a.on;
            await settle();
            return out;
        },
        observe() {
            return {
                valid: form.valid,
                changed: form.changed,
                fields: fields.map((f, i) => {
                    const r = rootOf(i);
                    const v = abstract(f.kind, f.model.value);
                    if (!r) return { v, shows: '-', error: false, changed: false, frozen: false };
                    return {
                        v,
                        shows: KINDS[f.kind].displayed(r),
                        error: !!r.querySelector('.vs-state-error') && !!r.querySelector('.vs-message-text'),
                        changed: f.seen.changed,
                        frozen: !!r.querySelector('.vs-disabled, .vs-readonly, input:disabled, input[readonly]'),
                    };
                }),
            };
        },
        async stop() {
            app.unmount();
            root.remove();
            await settle();
            await advance(1000);
        },
    };
}
