import { createApp, defineComponent, h, onMounted, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from '#h/app';
import { fakeTimers, advance, settle, type Adapter } from '#h/core';
import { vi } from 'vitest';

const { VsFocusTrap, VsDrawer } = VlossomComponents as any;

const shown = (el: Element) => {
    for (let n: Element | null = el; n; n = n.parentElement) if ((n as HTMLElement).style?.display === 'none') return false;
    return getComputedStyle(el).visibility !== 'hidden';
};
const able = (el: Element) => el.isConnected && shown(el) && !el.matches(':disabled');
// what a browser reaches with the Tab key
const tabbable = () =>
    Array.from(document.querySelectorAll<HTMLElement>('a[href], button, input, select, textarea, [tabindex]')).filter((el) => able(el) && el.tabIndex >= 0);

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let s: any;
    const nativeFocus = HTMLElement.prototype.focus;

    function element(kind: string, state: string) {
        if (state === 'gone') return null;
        const props: any = { id: kind };
        if (state === 'disabled') props.disabled = true;
        if (state === 'hidden') props.style = { display: 'none' };
        if (state === 'skip') props.tabindex = -1;
        const made: any = {
            input: () => h('input', props),
            link: () => h('a', { href: '#x', ...props }),
            button: () => h('button', props),
            select: () => h('select', props),
            area: () => h('textarea', props),
            box: () => h('div', { tabindex: 0, ...props }),
        };
        const inside = made[kind]();
        // hidden or disabled together with what is around it
        if (state === 'covered') return h('div', { style: { display: 'none' } }, [h('p', inside)]);
        if (state === 'invisible') return h('div', { style: { visibility: 'hidden' } }, [inside]);
        if (state === 'fieldset') return h('fieldset', { disabled: true }, [inside]);
        return inside;
    }
    const Inside = defineComponent({
        setup() {
            onMounted(() => s.auto && document.getElementById(s.auto)?.focus());
            return () => h('div', s.els.map((e: string) => h('span', { key: e }, [element(e, s.st[e])])));
        },
    });

    return {
        async start(c) {
            fakeTimers();
            HTMLElement.prototype.focus = function (this: HTMLElement, o: any) {
                if (able(this)) nativeFocus.call(this, o);
            };
            s = reactive({ els: c.els, st: Object.fromEntries(c.els.map((e: string) => [e, 'ok'])), on: false, host: true, enabled: c.enabled, auto: c.auto });
            root = document.createElement('div');
            document.body.appendChild(root);
            const trap = () => s.on && h(VsFocusTrap, { disabled: !s.enabled }, { default: () => [h(Inside)] });
            const drawer = () =>
                s.host &&
                h(VsDrawer, { focusLock: s.enabled, modelValue: s.on, 'onUpdate:modelValue': (v: boolean) => (s.on = v) }, { default: () => [h(Inside)] });
            app = createApp({
                render: () => h('div', [h('button', { id: 'before' }), c.host === 'trap' ? trap() : drawer(), h('button', { id: 'after' })]),
            });
            const ctx = appContext()._context;
            Object.assign(app._context.provides, ctx.provides);
            Object.assign(app._context.components, ctx.components);
            (document.activeElement as HTMLElement)?.blur();
            app.mount(root);
            if (c.focus !== 'none') document.getElementById(c.focus)!.focus();
            await advance(1000);
        },
        async step(a) {
            if (a.op === 'tab') {
                const from = (document.activeElement ?? document.body) as HTMLElement;
                const e = new KeyboardEvent('keydown', { key: 'Tab', code: 'Tab', shiftKey: a.back, bubbles: true, cancelable: true });
                from.dispatchEvent(e);
                if (!e.defaultPrevented) {
                    const way = a.back ? Node.DOCUMENT_POSITION_PRECEDING : Node.DOCUMENT_POSITION_FOLLOWING;
                    const rest = tabbable().filter((el) => el !== from && from.compareDocumentPosition(el) & way);
                    (a.back ? rest[rest.length - 1] : rest[0])?.focus();
                }
            } else if (a.op === 'set') s.st[a.el] = a.to;
            else if (a.op === 'focus') document.getElementById(a.el)!.focus();
            else if (a.op === 'enable') s.enabled = a.to;
            else if (a.op === 'host') {
                if (!a.to) s.on = false;
                s.host = a.to;
            } else s.on = a.op === 'appear';
            await advance(a.op === 'appear' || a.op === 'leave' || a.op === 'host' ? 1000 : 0);
        },
        observe() {
            const el = document.activeElement;
            if (!el || el === document.body) return { focus: 'none' };
            return { focus: el.closest('.vs-focus-trap') && !el.matches('.vs-focus-trap span *') ? 'start' : el.id };
        },
        stop() {
            app.unmount();
            root.remove();
            HTMLElement.prototype.focus = nativeFocus;
            vi.useRealTimers();
        },
    };
}
