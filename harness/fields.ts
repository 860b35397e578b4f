// Every input kind behind one interface: mount with a two way binding, act as the user, read what is shown.
import { createApp, h, reactive, ref, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, click, settle } from './core';
import { appContext } from './app';

const FILES: Record<string, File> = {};
const file = (n: string) => (FILES[n] ??= new File([n], `${n}.txt`, { type: 'text/plain' }));

interface Kind {
    comp: string;
    props?: any;
    /** Real value of each abstract value; '' is the value of a cleared field. */
    values: Record<string, any>;
    /** User interaction leading from the current value to `to`; false when the user has no way to. */
    user?: (root: Element, to: string, from: string) => any;
    /** What the control displays, as an abstract value. */
    displayed: (root: Element) => string;
}

export const type = (el: any, text: string) => {
    if (!el) throw new Error('no input element');
    // a browser lets nobody type here
    if (el.disabled || el.readOnly) return;
    el.value = text;
    el.dispatchEvent(new Event('input', { bubbles: true }));
    el.dispatchEvent(new Event('change', { bubbles: true }));
};
const typing =
    (sel: string, texts: Record<string, string>) =>
    (root: Element, to: string) =>
        type(root.querySelector(sel), texts[to]);
const textOf = (sel: string, texts: Record<string, string>) => (root: Element) => {
    const t = (root.querySelector(sel) as any)?.value;
    return Object.keys(texts).find((k) => texts[k] === t) ?? `?${t}`;
};
const OPTIONS = [
    { value: 'x', label: 'opt x' },
    { value: 'y', label: 'opt y' },
    { value: 'z', label: 'opt z' },
];
const listProps = { options: OPTIONS, optionLabel: 'label', optionValue: 'value' };
const toggleNative = (el: any) => {
    if (!el) throw new Error('no native control');
    if (el.disabled) return;
    el.click();
};
export async function pickOption(root: Element, label: string) {
    const open = () => document.querySelector('.vs-select-options');
    if (!open()) click(root.querySelector('.vs-select-trigger'), 'trigger');
    await settle();
    await advance(100);
    const item = Array.from(document.querySelectorAll('.vs-grouped-list-item')).find((n) => n.textContent?.includes(label));
    if (item) click(item);
    await settle();
}
export async function closeSelect(root: Element) {
    if (document.querySelector('.vs-select-options')) click(root.querySelector('.vs-select-trigger'), 'trigger');
    await advance(600);
}
const T = { '': '', x: 'x', y: 'y' };
const NUM = { '': '', x: '7', y: '12' };
const DAY = { '': '', x: '2024-01-05', y: '2024-02-06' };

export const KINDS: Record<string, Kind> = {
    input: { comp: 'VsInput', values: T, user: typing('input', T), displayed: textOf('input', T) },
    number: { comp: 'VsInput', props: { type: 'number' }, values: { '': null, x: 7, y: 12 }, user: typing('input', NUM), displayed: textOf('input', NUM) },
    textarea: { comp: 'VsTextarea', values: T, user: typing('textarea', T), displayed: textOf('textarea', T) },
    date: { comp: 'VsDatePicker', values: DAY, user: typing('input', DAY), displayed: textOf('input', DAY) },
    checkbox: {
        comp: 'VsCheckbox',
        values: { '': false, x: true },
        user: (root) => toggleNative(root.querySelector('input')),
        displayed: (root) => ((root.querySelector('input') as any).checked ? 'x' : ''),
    },
    checkboxset: {
        comp: 'VsCheckboxSet',
        props: listProps,
        values: { '': [], x: ['x'], y: ['x', 'y'] },
        async user(root, to, from) {
            const want: string[] = KINDS.checkboxset.values[to];
            const have: string[] = KINDS.checkboxset.values[from];
            for (const [i, o] of OPTIONS.entries()) {
                if (want.includes(o.value) === have.includes(o.value)) continue;
                toggleNative(root.querySelectorAll('input')[i]);
                await settle();
            }
        },
        displayed: (root) => {
            const on = Array.from(root.querySelectorAll('input')).map((n, i) => (n.checked ? OPTIONS[i].value : '')).join('');
            return ({ '': '', x: 'x', xy: 'y' } as any)[on] ?? `?${on}`;
        },
    },
    radio: {
        comp: 'VsRadio',
        props: { radioValue: 'x', name: 'solo' },
        values: { '': null, x: 'x' },
        user: (root) => toggleNative(root.querySelector('input')),
        displayed: (root) => ((root.querySelector('input') as any).checked ? 'x' : ''),
    },
    radioset: {
        comp: 'VsRadioSet',
        props: listProps,
        values: { '': null, x: 'x', y: 'y' },
        user: (root, to) => toggleNative(root.querySelectorAll('input')[OPTIONS.findIndex((o) => o.value === to)]),
        displayed: (root) => {
            const on = Array.from(root.querySelectorAll('input')).map((n, i) => (n.checked ? OPTIONS[i].value : '')).join('');
            return on;
        },
    },
    switch: {
        comp: 'VsSwitch',
        values: { '': false, x: true },
        user: (root) => toggleNative(root.querySelector('input')),
        displayed: (root) => ((root.querySelector('input') as any).checked ? 'x' : ''),
    },
    select: {
        comp: 'VsSelect',
        props: listProps,
        values: { '': null, x: 'x', y: 'y' },
        async user(root, to) {
            await pickOption(root, `opt ${to}`);
            await closeSelect(root);
        },
        displayed: (root) => {
            const t = root.querySelector('.vs-select-value')?.textContent?.trim() ?? '';
            return t.replace('opt ', '');
        },
    },
    multiselect: {
        comp: 'VsSelect',
        props: { ...listProps, multiple: true, closableChips: true },
        values: { '': [], x: ['x'], y: ['x', 'y'] },
        async user(root, to, from) {
            const want: string[] = KINDS.multiselect.values[to];
            const have: string[] = KINDS.multiselect.values[from];
            for (const o of OPTIONS) if (want.includes(o.value) !== have.includes(o.value)) await pickOption(root, o.label);
            await closeSelect(root);
        },
        displayed: (root) => {
            const on = Array.from(root.querySelectorAll('.vs-select-value .vs-chip')).map((n) => n.textContent?.trim().replace('opt ', '')).join('');
            return ({ '': '', x: 'x', xy: 'y' } as any)[on] ?? `?${on}`;
        },
    },
    search: { comp: 'VsSearchInput', values: T, user: typing('input', T), displayed: textOf('input', T) },
    toggle: {
        comp: 'VsToggle',
        values: { '': false, x: true },
        user: (root) => toggleNative(root.querySelector('button')),
        displayed: (root) => ((root.querySelector('button') as any).getAttribute('aria-pressed') === 'true' ? 'x' : ''),
    },
    filedrop: {
        comp: 'VsFileDrop',
        props: { multiple: true },
        values: { '': [], x: [file('one')], y: [file('one'), file('two')] },
        user(root, to) {
            const el: any = root.querySelector('input[type=file]');
            if (el.disabled) return;
            if (to === '') {
                const button = root.querySelector('.vs-file-drop-close-button');
                if (button) click(button);
                return;
            }
            Object.defineProperty(el, 'files', { configurable: true, get: () => KINDS.filedrop.values[to] });
            el.dispatchEvent(new Event('change', { bubbles: true }));
        },
        displayed: (root) => {
            const on = Array.from(root.querySelectorAll('.vs-file-drop-file-name')).map((n) => n.textContent?.trim()).join('');
            return ({ '': '', 'one.txt': 'x', 'one.txttwo.txt': 'y' } as any)[on] ?? `?${on}`;
        },
    },
};

function equal(a: any, b: any): boolean {
    if (Array.isArray(a) && Array.isArray(b)) return a.length === b.length && a.every((v, i) => v === b[i]);
    return a === b;
}
export function abstract(kind: string, v: any): string {
    const k = KINDS[kind];
    const found = Object.keys(k.values).find((n) => equal(k.values[n], v));
    if (found !== undefined) return found;
    if (v === undefined || v === null || v === '') return '';
    return `?${JSON.stringify(v)}`;
}

export interface Field {
    app: App;
    root: HTMLElement;
    kind: string;
    model: { value: any };
    props: any;
    /** what the bindings received */
    seen: { valid: boolean; changed: any; events: any[] };
    inst: () => any;
    user(to: string): Promise<void>;
    assign(to: string): Promise<void>;
    texts(): string[];
    error(): boolean;
    unmount(): void;
}

/** Render function of one bound field, usable on its own or inside a form. */
export function fieldNode(f: any) {
    const k = KINDS[f.kind];
    const comp: any = (VlossomComponents as any)[k.comp];
    return h(comp, {
        ...k.props,
        ...f.props,
        ref: (r: any) => (f.ref = r),
        modelValue: f.model.value,
        'onUpdate:modelValue': (v: any) => {
            f.model.value = v;
            f.seen.events.push(['model', abstract(f.kind, v)]);
        },
        'onUpdate:valid': (v: boolean) => (f.seen.valid = v),
        // the file drop announces the files instead of true
        'onUpdate:changed': (v: any) => (f.seen.changed = !!v),
        onChange: (v: any) => f.seen.events.push(['change', v instanceof Event ? 'event' : abstract(f.kind, v)]),
    });
}

export function bound(kind: string, initial: string, props: any = {}): any {
    const k = KINDS[kind];
    const value = k.values[initial];
    return {
        kind,
        model: ref(Array.isArray(value) ? [...value] : value),
        props: reactive(props),
        seen: { valid: true, changed: false, events: [] },
        ref: null,
    };
}
export const setModel = (f: any, to: string) => {
    const v = KINDS[f.kind].values[to];
    f.model.value = Array.isArray(v) ? [...v] : v;
};

export function mountField(kind: string, initial: string, props: any = {}): Field {
    appContext();
    const f = bound(kind, initial, props);
    const root = document.createElement('div');
    document.body.appendChild(root);
    const app = createApp({ render: () => fieldNode(f) });
    // same application wide settings as the installed one
    Object.assign(app._context.provides, appContext()._context.provides);
    Object.assign(app._context.components, appContext()._context.components);
    app.mount(root);
    return {
        app,
        root,
        kind,
        model: f.model,
        props: f.props,
        seen: f.seen,
        inst: () => f.ref,
        async user(to) {
            await KINDS[kind].user!(root, to, abstract(kind, f.model.value));
            await settle();
        },
        async assign(to) {
            setModel(f, to);
            await settle();
        },
        texts: () => Array.from(root.querySelectorAll('.vs-message-text')).map((n) => n.textContent ?? ''),
        error: () => !!root.querySelector('.vs-state-error'),
        unmount() {
            app.unmount();
            root.remove();
        },
    };
}
