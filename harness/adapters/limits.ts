import { advance, fakeTimers, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const NO = -9;
const text = new File(['t'], 'notes.Txt', { type: 'text/plain' });
const image = new File(['i'], 'picture.png', { type: 'image/png' });
const day = (n: number) => `2024-0${n + 2}-01`;
const OPTIONS = [
    { label: 'zero', value: 0 },
    { label: 'no', value: false },
    { label: 'two', value: 'two' },
];
const list = { options: OPTIONS, optionLabel: 'label', optionValue: 'value' };
const pick = (n: number) => (n === NO ? null : OPTIONS[n].value);
const several = (n: number) => OPTIONS.slice(0, n).map((o) => o.value);

interface Kind {
    comp: string;
    props?: any;
    value: (n: number) => any;
    limit?: (n: number) => any;
}
const KINDS: Record<string, Kind> = {
    text: { comp: 'VsInput', value: (n) => 'é가x'.slice(0, n) },
    password: { comp: 'VsInput', props: { type: 'password' }, value: (n) => '012'.slice(0, n) },
    number: { comp: 'VsInput', props: { type: 'number' }, value: (n) => (n === NO ? null : n) },
    textarea: { comp: 'VsTextarea', value: (n) => 'a\nb'.slice(0, n) },
    date: { comp: 'VsDatePicker', value: (n) => (n === NO ? '' : day(n)), limit: day },
    select: { comp: 'VsSelect', props: list, value: pick },
    multiselect: { comp: 'VsSelect', props: { ...list, multiple: true }, value: several },
    radioset: { comp: 'VsRadioSet', props: list, value: pick },
    checkboxset: { comp: 'VsCheckboxSet', props: list, value: several },
    checkbox: { comp: 'VsCheckbox', value: (n) => n === 1 },
    switch: { comp: 'VsSwitch', value: (n) => n === 1 },
    radio: { comp: 'VsRadio', props: { radioValue: 0, name: 'r' }, value: (n) => (n === 1 ? 0 : null) },
    file: { comp: 'VsFileDrop', props: { multiple: true }, value: (n) => [[], [text], [image], [text, image]][n] },
};

export default function create(): Adapter {
    let m: Mounted;
    let k: Kind;
    let asText = false;
    let valid = true;
    const limit = (n: number, open: number) => {
        if (n === open) return undefined;
        const l = (k.limit ?? ((x: number) => x))(n);
        return asText ? String(l) : l;
    };

    return {
        async start(c) {
            fakeTimers();
            k = KINDS[c.kind];
            asText = c.form === 'text';
            valid = true;
            m = mountComponent(k.comp, { ...k.props, modelValue: k.value(c.v), required: c.req }, { bind: ['modelValue'], listen: ['update:valid'] });
            await settle();
        },
        async step(a) {
            if (a.op === 'value') m.props.modelValue = k.value(a.to);
            else if (a.op === 'required') m.props.required = a.to;
            else if (a.op === 'min') m.props.min = limit(a.to, -8);
            else if (a.op === 'max') m.props.max = limit(a.to, 8);
            else if (a.op === 'accept') m.props.accept = a.to === '-' ? '' : a.to;
            await settle();
        },
        observe() {
            for (const [e, v] of m.events) if (e === 'update:valid') valid = v;
            m.events.length = 0;
            return { valid, answer: m.inst.validate() };
        },
        async stop() {
            m.unmount();
            await advance(1000);
        },
    };
}
