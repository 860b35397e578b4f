import { reactive, toRaw } from 'vue';
import { vi } from 'vitest';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const COMP: Record<string, string> = { radioset: 'VsRadioSet', checkset: 'VsCheckboxSet', select: 'VsSelect', multiselect: 'VsSelect' };
const ALL = ['a', 'b', 'c', 'd'];
const WORD: Record<string, string> = { a: '', b: 'no', c: 'false', d: '0' };
const KEY: Record<string, string> = { none: '', name: 'name', deep: 'in.name', n: 'n', yes: 'yes', text: 'text', lost: 'lost' };
const object = (o: string) => {
    const i = ALL.indexOf(o);
    return { id: i, name: `name ${o}`, n: i, yes: o === 'b', text: i ? `text ${o}` : '', in: { id: WORD[o], name: `inner ${o}` } };
};

export default function create(): Adapter {
    let m: Mounted;
    let cfg: any;
    let lab: string;
    const multi = () => cfg.kind === 'checkset' || cfg.kind === 'multiselect';
    const isSet = () => cfg.kind === 'checkset' || cfg.kind === 'radioset';
    const option = (o: string): any => (cfg.shape === 'number' ? ALL.indexOf(o) : cfg.shape === 'word' ? WORD[o] : object(o));
    const value = (o: string): any => (cfg.shape === 'id' ? object(o).id : cfg.shape === 'inner' ? object(o).in.id : option(o));
    const same = (x: any, y: any) => typeof x === typeof y && JSON.stringify(x) === JSON.stringify(y);
    const nameOf = (v: any) => ALL.find((o) => same(value(o), toRaw(v))) ?? `?${JSON.stringify(v)}`;
    const toValue = (v: string[]) => (multi() ? v.map(value) : v.length ? value(v[0]) : null);
    const fromValue = (v: any) => (Array.isArray(v) ? v.map(nameOf) : v === null || v === undefined ? [] : [nameOf(v)]);
    // what each option may be called
    const texts = (o: string): Record<string, string> => {
        const x = object(o);
        if (typeof option(o) !== 'object') return { plain: String(option(o)) };
        return { whole: JSON.stringify(x), name: x.name, deep: x.in.name, n: String(x.n), yes: String(x.yes), text: x.text };
    };
    const calledBy = (n: Element | null | undefined) => {
        const t = n?.textContent?.trim() ?? '';
        const found: string[] = [];
        for (const o of ALL) for (const [k, s] of Object.entries(texts(o))) if (s === t) found.push(`${k}:${o}`);
        return found.find((f) => f.startsWith(`${lab}:`)) ?? found[0] ?? `?${t}`;
    };
    const items = () => Array.from(m.root.querySelectorAll(cfg.kind === 'radioset' ? '.vs-radio-item' : '.vs-checkbox-item'));
    const nameIn = (n: Element) => calledBy(n.querySelector('.vs-radio-label, .vs-checkbox-label'));

    return {
        async start(c) {
            (Element.prototype as any).scrollIntoView ??= () => {};
            fakeTimers();
            cfg = c.x;
            lab = c.lab;
            m = mountComponent(
                COMP[cfg.kind],
                {
                    options: c.list.map(option),
                    optionLabel: KEY[lab],
                    optionValue: cfg.shape === 'id' ? 'id' : cfg.shape === 'inner' ? 'in.id' : '',
                    modelValue: toValue(c.val),
                    ...(cfg.kind === 'multiselect' ? { multiple: true } : {}),
                },
                { bind: ['modelValue'], listen: ['change'] },
            );
            await settle();
        },
        async step(a) {
            m.events.length = 0;
            if (a.op === 'assign') m.props.modelValue = toValue(a.v);
            else if (a.op === 'label') m.props.optionLabel = KEY[(lab = a.k)];
            else if (a.op === 'options') {
                if (a.how === 'in place') m.props.options.splice(0, m.props.options.length, ...a.l.map(option));
                else m.props.options = reactive(a.l.map(option));
            } else if (isSet()) {
                const at = items().find((n) => nameIn(n) === a.called);
                click(at?.querySelector('input'), `choice ${a.called}`);
            } else {
                const trigger = m.root.querySelector('.vs-select-trigger');
                click(trigger, 'trigger');
                await settle();
                await advance(100);
                const at = Array.from(document.querySelectorAll('.vs-select-options .vs-select-option')).find((n) => calledBy(n) === a.called);
                click(at, `option ${a.called}`);
                await settle();
                if (document.querySelector('.vs-select-options')) click(trigger);
                await advance(700);
            }
            await settle();
            return m.events.filter((e) => e[0] === 'change').map((e) => fromValue(e[1]));
        },
        observe() {
            const shown = m.root.querySelector('.vs-select-value');
            const chosen = !shown || shown.querySelector('.vs-select-placeholder') ? [] : multi() ? Array.from(shown.querySelectorAll('.vs-chip')) : [shown];
            return {
                val: fromValue(m.props.modelValue),
                labels: isSet() ? items().map(nameIn) : [],
                picked: isSet() ? items().filter((n) => n.querySelector('input')!.checked).map(nameIn) : chosen.map(calledBy),
            };
        },
        async stop() {
            m.unmount();
            await advance(1000);
            vi.useRealTimers();
        },
    };
}
