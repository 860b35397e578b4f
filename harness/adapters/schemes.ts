import { useOptionsStore } from '@/stores';
import { vlossom } from '#h/app';
import { settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const opt = (v: string) => (v === '-' ? undefined : v);

export default function create(): Adapter {
    let ms: Mounted[] = [];
    let comps: string[] = [];
    const setGlobal = (all: string[], def: string) => {
        const o: any = {};
        all.forEach((v, i) => v !== '-' && (o[comps[i]] = v));
        if (def !== '-') o.default = def;
        vlossom().colorScheme = o;
    };

    return {
        async start(c) {
            comps = c.comps;
            setGlobal([], c.def);
            ms = comps.map((n) => mountComponent(n, { colorScheme: undefined }));
            await settle();
        },
        async step(a) {
            if (a.op === 'own') ms[a.who - 1].props.colorScheme = opt(a.to);
            else setGlobal(a.all, a.def);
            await settle();
        },
        observe() {
            const schemes = ms.map((m, i) => {
                const kebab = comps[i].replace(/[A-Z]/g, (s, k) => (k ? '-' : '') + s.toLowerCase());
                const el = m.root.querySelector(`.${kebab}`)!;
                return [...el.classList].filter((s) => s.startsWith('vs-cs-')).map((s) => s.slice(6)).join(' ');
            });
            return { schemes };
        },
        stop() {
            for (const m of ms) m.unmount();
            useOptionsStore().setColorScheme({});
        },
    };
}
