// One application with vlossom installed, shared by all walks of a process (the overlay app is a singleton).
import { createApp, h, type App } from 'vue';
import { createVlossom, useVlossom } from '@/framework';
import { VlossomComponents } from '@/components/component-map';
import { useModalContainerStore, useOverlayCallbackStore, useToastContainerStore } from '@/stores';
import { advance, settle } from './core';

let app: App | null = null;

export function stubBrowser() {
    const g = globalThis as any;
    const store = new Map<string, string>();
    g.matchMedia ??= () => ({ matches: false, addEventListener() {}, removeEventListener() {} });
    if (typeof window !== 'undefined') (window as any).matchMedia ??= g.matchMedia;
    g.ResizeObserver ??= class {
        observe() {}
        unobserve() {}
        disconnect() {}
    };
    g.IntersectionObserver ??= class {
        observe() {}
        unobserve() {}
        disconnect() {}
    };
    return store;
}

export function vlossom() {
    if (!app) {
        stubBrowser();
        const root = document.createElement('div');
        root.id = 'app';
        document.body.appendChild(root);
        app = createApp({ render: () => h('div') });
        app.use(createVlossom({ components: VlossomComponents as any }));
        app.mount(root);
    }
    return useVlossom();
}

export function appContext() {
    vlossom();
    return app!;
}

/** A container element that outlives the walk (views are teleported into it once and stay there). */
export function box(id: string) {
    let el = document.getElementById(id);
    if (!el) {
        el = document.createElement('div');
        el.id = id;
        document.body.appendChild(el);
    }
    return el;
}

export async function clearOverlays(containers: string[]) {
    const $vs = vlossom();
    for (const c of containers) {
        $vs.modal.clear(c);
        $vs.toast.clear(c);
    }
    useModalContainerStore().clear();
    useToastContainerStore().clear();
    useOverlayCallbackStore().clear();
    await settle();
    await advance(1000);
}
