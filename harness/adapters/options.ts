import { createApp, h, type App } from 'vue';
import { createVlossom, useVlossom } from '@/framework';
import { useOptionsStore } from '@/stores';
import { VlossomComponents } from '@/components/component-map';
import { stubBrowser } from '#h/app';
import { settle, type Adapter } from '#h/core';

const schemes = (s: string) => (s === '-' ? {} : { VsButton: s });
const presets = (p: string) => (p === '-' ? {} : { mine: { VsButton: { width: p } } });

export default function create(): Adapter {
    let app: App | null = null;
    let root: HTMLElement;
    let sheet: HTMLStyleElement;
    const leave = () => {
        app?.unmount();
        root?.remove();
        app = null;
        // a new page has nothing on its root element
        document.documentElement.removeAttribute('style');
    };

    return {
        async start(c) {
            stubBrowser();
            leave();
            sheet = document.createElement('style');
            sheet.textContent = `html { --vs-radius-ratio: ${c.own / 10}; }`;
            document.head.appendChild(sheet);
        },
        async step(a) {
            if (a.op === 'boot') {
                leave();
                const options: any = { components: VlossomComponents };
                if (a.scheme !== '-') options.colorScheme = schemes(a.scheme);
                if (a.preset !== '-') options.styleSet = presets(a.preset);
                if (a.ratio !== 100) options.radiusRatio = a.ratio / 10;
                root = document.createElement('div');
                document.body.appendChild(root);
                app = createApp({ render: () => h((VlossomComponents as any).VsButton, { styleSet: 'mine' }) });
                app.use(createVlossom(options));
                app.mount(root);
            } else if (a.op === 'scheme') useVlossom().colorScheme = schemes(a.to) as any;
            else if (a.op === 'preset') useVlossom().styleSet = presets(a.to) as any;
            else if (a.op === 'ratio') useVlossom().radiusRatio = a.to / 10;
            await settle();
        },
        observe() {
            if (!app) return { on: false };
            const el = root.querySelector('.vs-button') as HTMLElement;
            const $vs = useVlossom();
            return {
                on: true,
                scheme: [[...el.classList].filter((s) => s.startsWith('vs-cs-')).map((s) => s.slice(6)).join(' '), ($vs.colorScheme as any).VsButton ?? ''],
                preset: [el.style.width, ($vs.styleSet as any).mine?.VsButton?.width ?? ''],
                radius: Math.round(Number(getComputedStyle(document.documentElement).getPropertyValue('--vs-radius-ratio')) * 10),
                ratio: Math.round($vs.radiusRatio * 10),
            };
        },
        stop() {
            leave();
            sheet.remove();
            const store = useOptionsStore();
            store.setColorScheme({});
            store.setStyleSet({});
            store.setRadiusRatio(1);
        },
    };
}
