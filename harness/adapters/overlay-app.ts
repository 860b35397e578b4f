import { createApp, h, inject, markRaw, resolveComponent, resolveDirective, withDirectives, type App } from 'vue';
import { vi } from 'vitest';
import { settle, type Adapter } from '#h/core';
import { box } from '#h/app';

export default function create(): Adapter {
    let app: App;
    let mountOverlayApp: (app: App) => void;
    let store: any;
    let caught: string[] = [];
    let fixed = '-';
    let seen: any;
    let globals: any;

    const Probe = markRaw({
        setup: () => ({ given: inject('given', '-') }),
        render(this: any) {
            globals = this.$.appContext.config.globalProperties;
            seen = { given: this.given, plain: this.$plain ?? '-', fixed: this.$fixed ?? '-' };
            const names = Object.keys(globals);
            seen.named = { plain: names.includes('$plain'), fixed: names.includes('$fixed') };
            const part: any = resolveComponent('probe-part');
            const mark = resolveDirective('probe-mark');
            const el = h('i', { id: 'probe', onClick: () => { throw new Error('probe'); } }, typeof part === 'string' ? '-' : [h(part)]);
            return mark ? withDirectives(el, [[mark]]) : el;
        },
    });

    async function visit(what: (el: HTMLElement) => void) {
        store.push('probe', '#probe-box', Probe);
        await settle();
        what(document.getElementById('probe')!);
        store.delete('probe');
        await settle();
    }

    return {
        async start() {
            vi.resetModules();
            ({ mountOverlayApp } = await import('@/framework/overlay-helper'));
            store = (await import('@/stores')).useOverlayContainerStore();
            box('probe-box');
            caught = [];
            fixed = '-';
            app = createApp({ render: () => h('div') });
            app.config.warnHandler = () => {};
        },
        async step(a) {
            if (a.op === 'install') mountOverlayApp(app);
            else if (a.op === 'second') mountOverlayApp(createApp({ render: () => h('div') }));
            else if (a.op === 'part') app.component('probe-part', { render: () => h('b', a.to) });
            else if (a.op === 'mark') app.directive('probe-mark', { mounted: (el) => el.setAttribute('data-mark', a.to) });
            else if (a.op === 'give') app.provide('given', a.to);
            else if (a.op === 'plain') app.config.globalProperties.$plain = a.to;
            else if (a.op === 'fixed') {
                if (fixed === '-') Object.defineProperty(app.config.globalProperties, '$fixed', { enumerable: true, get: () => fixed });
                fixed = a.to;
            } else if (a.op === 'handle') app.config.errorHandler = () => caught.push(a.to);
            else if (a.op === 'own') await visit(() => (globals.$plain = a.to));
            else if (a.op === 'look') {
                seen = null;
                let out: any;
                await visit((el) => (out = { ...seen, part: el.textContent, mark: el.dataset.mark ?? '-' }));
                return out;
            } else if (a.op === 'fail') {
                caught = [];
                await visit((el) => el.click());
                return caught.join();
            }
        },
        observe() {
            return { apps: document.querySelectorAll('#vs-overlay-container').length, plain: app.config.globalProperties.$plain ?? '-' };
        },
        stop() {
            document.getElementById('vs-overlay-container')?.remove();
            document.getElementById('probe-box')?.remove();
        },
    };
}
