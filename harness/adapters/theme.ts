import { createApp, h, type App } from 'vue';
import { createVlossom, useVlossom } from '@/framework';
import { useOptionsStore } from '@/stores';
import { THEME_KEY } from '@/declaration';
import { VlossomComponents } from '@/components/component-map';
import { stubBrowser } from '#h/app';
import { click, settle, type Adapter } from '#h/core';

export default function create(): Adapter {
    let app: App | null = null;
    let root: HTMLElement;
    const leave = () => {
        app?.unmount();
        root?.remove();
        app = null;
        // what a page load starts from
        document.documentElement.className = '';
        useOptionsStore().setTheme('light');
    };

    return {
        async start(c) {
            stubBrowser();
            leave();
            localStorage.clear();
            if (c.saved !== '-') localStorage.setItem(THEME_KEY, c.saved);
        },
        async step(a) {
            if (a.op === 'boot') {
                leave();
                const dark = a.sys === 'dark';
                (window as any).matchMedia = (q: string) => ({ matches: /dark/.test(q) ? dark : !dark, addEventListener() {}, removeEventListener() {} });
                const options: any = { components: VlossomComponents };
                if (a.def !== '-') options.theme = a.def;
                root = document.createElement('div');
                document.body.appendChild(root);
                app = createApp({ render: () => h((VlossomComponents as any).VsThemeButton) });
                app.use(createVlossom(options));
                app.mount(root);
            } else if (a.op === 'assign') useVlossom().theme = a.to;
            else if (a.op === 'toggle') a.how === 'call' ? useVlossom().toggleTheme() : click(root.querySelector('button'));
            else if (a.op === 'forget') localStorage.clear();
            await settle();
        },
        observe() {
            const saved = localStorage.getItem(THEME_KEY) ?? '-';
            if (!app) return { theme: 'off', marker: 'off', shown: 'off', saved };
            const on = (s: string) => root.querySelector(s)?.classList.contains('vs-on');
            return {
                theme: useVlossom().theme,
                marker: document.documentElement.classList.contains('vs-dark') ? 'dark' : 'light',
                shown: on('.vs-theme-dark') && !on('.vs-theme-light') ? 'dark' : on('.vs-theme-light') && !on('.vs-theme-dark') ? 'light' : 'unclear',
                saved,
            };
        },
        stop() {
            leave();
            localStorage.clear();
        },
    };
}
