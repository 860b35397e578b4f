import { reactive } from 'vue';
import { advance, click, fakeTimers, key, settle, type Adapter } from '#h/core';
import { type as typeText } from '#h/fields';
import { mountComponent, type Mounted } from '#h/mount';
import { vi } from 'vitest';

const LABEL: Record<string, string> = { a: 'Apple', b: 'Banana', c: 'Aprican', d: 'Dog' };
const BY_LABEL = Object.fromEntries(Object.entries(LABEL).map(([k, v]) => [v, k]));
const option = (o: string) => ({ key: o, name: LABEL[o] ?? o });

export default function create(): Adapter {
    let m: Mounted;
    let cfg: any;
    let outside: HTMLElement;
    const multi = () => cfg.look !== 'single';
    const panel = () => document.querySelector('.vs-select-options');
    const items = () => Array.from(panel()?.querySelectorAll('.vs-grouped-list-item') ?? []);
    const nameOf = (n: Element | null | undefined) => BY_LABEL[n?.textContent?.trim() ?? ''] ?? `?${n?.textContent?.trim()}`;
    const disabledBy = (d: string[]) => (o: any) => d.includes(o.key);
    const toValue = (v: string[]) => (multi() ? [...v] : (v[0] ?? null));
    const fromValue = (v: any) => (Array.isArray(v) ? [...v] : v === null || v === undefined ? [] : [v]);
    const trigger = () => m.root.querySelector('.vs-select-trigger')!;

    return {
        async start(c) {
            (Element.prototype as any).scrollIntoView ??= () => {};
            fakeTimers();
            cfg = c;
            m = mountComponent(
                'VsSelect',
                {
                    options: c.list.map(option),
                    optionLabel: 'name',
                    optionValue: 'key',
                    optionsDisabled: disabledBy(c.dis),
                    multiple: multi(),
                    search: c.search,
                    selectAll: c.all,
                    closableChips: true,
                    collapseChips: c.look === 'collapsed',
                    modelValue: multi() ? [] : null,
                },
                { bind: ['modelValue'], listen: ['change'] },
            );
            outside = document.createElement('p');
            document.body.appendChild(outside);
            await settle();
            (trigger() as HTMLElement).focus();
            await settle();
        },
        async step(a) {
            m.events.length = 0;
            const wasOpen = !!panel();
            if (a.op === 'trigger') click(trigger());
            else if (a.op === 'flash') {
                click(trigger());
                await advance(20);
                click(trigger());
                await advance(700);
            } else if (a.op === 'hover') {
                const el = a.arg === 'all' ? panel()!.querySelector('.vs-select-all') : items().find((n) => nameOf(n) === a.arg)?.querySelector('.vs-select-option');
                el!.dispatchEvent(new MouseEvent('mousemove', { bubbles: true }));
            } else if (a.op === 'outside') click(outside);
            else if (a.op === 'pick') click(items().find((n) => nameOf(n) === a.arg)?.querySelector('.vs-select-option'), `option ${a.arg}`);
            else if (a.op === 'all') click(panel()!.querySelector('.vs-select-all'), 'select all');
            else if (a.op === 'search') typeText(panel()!.querySelector('.vs-select-search input'), a.arg);
            else if (a.op === 'chip') {
                const chip = Array.from(trigger().querySelectorAll('.vs-chip')).find((n) => nameOf(n) === a.arg);
                click(chip?.querySelector('.vs-chip-close-button'), `chip ${a.arg}`);
            } else if (a.op === 'clear') {
                if (a.arg === 'button') click(trigger().querySelector('.vs-select-clear-button'), 'clear button');
                else m.inst.clear();
            } else if (a.op === 'assign') m.props.modelValue = toValue(a.arg);
            else if (a.op === 'options') {
                if (a.how === 'same') m.props.options.splice(0, m.props.options.length, ...a.arg.map(option));
                else m.props.options = reactive(a.arg.map(option));
            } else if (a.op === 'disable') m.props.optionsDisabled = disabledBy(a.arg);
            else if (a.op === 'key') {
                // a closed select hears keys while it has the focus
                if (!wasOpen) (trigger() as HTMLElement).focus();
                await settle();
                key(a.arg);
                await settle();
            }
            await settle();
            // opening and closing take some time
            await advance(wasOpen !== m.inst.isOpen ? 700 : 100);
            return m.events.filter((e) => e[0] === 'change').map((e) => fromValue(e[1]));
        },
        observe() {
            const p = panel();
            const value = trigger().querySelector('.vs-select-value')!;
            let text: any[];
            if (value.querySelector('.vs-select-placeholder')) text = [];
            else if (!multi()) text = [nameOf(value)];
            else {
                text = Array.from(value.querySelectorAll('.vs-chip')).map((n) => nameOf(n));
                const more = value.querySelector('.vs-select-collapsed-count');
                if (more) text.push(Number(more.textContent?.replace('+', '')));
            }
            const active = p?.querySelector('.vs-focusable-active') as HTMLElement | null;
            const all = p?.querySelector('.vs-select-all input') as any;
            return {
                bound: fromValue(m.props.modelValue),
                text,
                open: !!p,
                shown: items().map((n) => ({ o: nameOf(n), on: !!n.querySelector('.selected'), off: n.classList.contains('vs-disabled') })),
                all: all ? (all.checked ? 'on' : 'off') : '-',
                at: !active ? '-' : active.dataset.role === 'search' ? 'search' : active.dataset.role === 'select-all' ? 'all' : nameOf(active),
            };
        },
        async stop() {
            m.unmount();
            outside.remove();
            await advance(1000);
            vi.useRealTimers();
        },
    };
}
