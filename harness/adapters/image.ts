import { createApp, h, reactive, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { advance, fakeTimers, settle, type Adapter } from '#h/core';
import { appContext } from '#h/app';
import { Watcher } from '#h/watcher';

export default function create(): Adapter {
    let app: App;
    let root: HTMLElement;
    let errors = 0;
    // what the browser has been given and not yet settled
    let asked = '';
    let pending = false;
    const browser = (globalThis as any).IntersectionObserver;
    const page = reactive({ src: '', fallback: '' });
    const img = () => root.querySelector('img') as HTMLImageElement;
    const notice = () => {
        const now = img().getAttribute('src') ?? '';
        if (now !== asked) pending = now !== '';
        asked = now;
    };

    return {
        async start(c) {
            fakeTimers();
            Watcher.all.clear();
            (globalThis as any).IntersectionObserver = Watcher;
            Object.assign(page, { src: c.src, fallback: c.fb });
            root = document.createElement('div');
            document.body.appendChild(root);
            const C: any = (VlossomComponents as any).VsImage;
            app = createApp({
                render: () => h(C, { ...page, lazy: c.cfg.lazy, noSkeleton: c.cfg.bare, onError: () => errors++ }),
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            app.mount(root);
            await settle();
            notice();
        },
        async step(a) {
            errors = 0;
            if (a.op === 'enter') {
                for (const w of [...Watcher.all]) w.frame(() => false);
                await settle();
                for (const w of [...Watcher.all]) w.frame(() => true);
            } else if (a.op === 'blank') img().dispatchEvent(new Event('error'));
            else if (a.op === 'load' || a.op === 'fail') {
                // a browser does not load what it was given before
                if (pending) img().dispatchEvent(new Event(a.op === 'load' ? 'load' : 'error'));
                pending = false;
            } else if (a.op === 'src') page.src = a.x;
            else if (a.op === 'fallback') page.fallback = a.x;
            await settle();
            notice();
            return { errors };
        },
        observe() {
            return {
                url: img().getAttribute('src') ?? '',
                picture: !img().classList.contains('vs-hidden'),
                icon: !!root.querySelector('.vs-image-fallback'),
                skeleton: !!root.querySelector('.vs-skeleton'),
                watching: [...Watcher.all].filter((w) => w.told.size).length,
            };
        },
        async stop() {
            app.unmount();
            await settle();
            const left = [...Watcher.all].filter((w) => w.told.size).length;
            root.remove();
            await advance(1000);
            (globalThis as any).IntersectionObserver = browser;
            if (left) throw new Error(`${left} observers left behind`);
        },
    };
}
