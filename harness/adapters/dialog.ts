import { useOverlayCallbackStore } from '@/stores';
import { advance, click, fakeTimers, key, settle, type Adapter } from '#h/core';
import { box, clearOverlays, vlossom } from '#h/app';

let serial = 0;

function code(v: any) {
    if (v === null) return 'null';
    if (typeof v === 'string') return `text ${v}`;
    if (typeof v === 'number') return `number ${v}`;
    return String(v);
}

export default function create(): Adapter {
    const $vs = vlossom();
    let cfg: any[] = [];
    let ids: string[] = [];
    let out: any[] = [];
    let containers: string[] = [];

    function nodeOf(i: number) {
        const n = Array.from(document.querySelectorAll('.vs-modal-node')).find((x) => x.textContent?.includes(`[${ids[i]}]`));
        if (!n) throw new Error(`dialog ${i + 1} is not rendered`);
        return n;
    }
    const button = (i: number, text: string) =>
        Array.from(nodeOf(i).querySelectorAll('button')).find((b) => b.textContent?.trim() === text);

    function launch(i: number, kind: string, container: string | undefined, init: string, id: string) {
        const common: any = { id, container, dimmed: true, dimClose: true };
        const text = `[${id}]`;
        const track = (p: Promise<any>) =>
            void p.then(
                (v) => out.push({ i: i + 1, v: code(v) }),
                () => out.push({ i: i + 1, v: 'rejected' }),
            );
        if (kind === 'plain') $vs.modal.open(text, common);
        else if (kind === 'alert') track($vs.alert.open(text, { ...common, okText: 'Yes' }));
        else if (kind === 'confirm') track($vs.confirm.open(text, { ...common, okText: 'Yes', cancelText: 'No' }));
        else {
            const number = kind === 'number';
            const input: any = { required: true, type: number ? 'number' : 'text' };
            if (init) input.initialValue = number ? Number(init) : init;
            track($vs.prompt.open(text, { ...common, okText: 'Yes', cancelText: 'No', input }));
        }
    }

    return {
        start(c, obs) {
            fakeTimers();
            cfg = c;
            containers = Object.keys(obs.shown);
            for (const x of containers) if (x !== 'body') box(x.slice(1));
        },
        async step(a) {
            out = [];
            const i = a.i - 1;
            if (a.op === 'open') {
                ids[i] = `d${i + 1}-${serial++}`;
                // the default container is left to the service
                launch(i, cfg[i].k, cfg[i].c === 'body' ? undefined : cfg[i].c, cfg[i].init, ids[i]);
            } else if (a.op === 'openNowhere') launch(-1, a.k, '#nowhere', '', 'x');
            else if (a.op === 'type') {
                const input = nodeOf(i).querySelector('input') as HTMLInputElement;
                input.value = a.t;
                input.dispatchEvent(new Event('input', { bubbles: true }));
            } else if (a.op === 'ok') click(button(i, 'Yes'), 'ok button');
            else if (a.op === 'cancel') click(button(i, 'No'), 'cancel button');
            else if (a.op === 'backdrop') click(nodeOf(i).querySelector('.vs-dimmed'), 'backdrop');
            else if (a.op === 'closeId') $vs.modal.closeWithId(cfg[i].c, ids[i]);
            else if (a.op === 'enter') key('Enter');
            else if (a.op === 'escape') key('Escape');
            else if (a.op === 'clear') a.c === 'body' ? $vs.modal.clear() : $vs.modal.clear(a.c);
            await settle();
            await advance(700);
            return out.sort((x, y) => x.i - y.i);
        },
        observe() {
            const shown: any = {};
            for (const c of containers) {
                const list = Array.from(document.querySelectorAll(`${c} > .vs-modal-view .vs-modal-node`));
                shown[c] = list.map((n) => Number(/\[d(\d+)-/.exec(n.textContent ?? '')?.[1] ?? -1));
            }
            const all = Object.values(shown).flat();
            const typed = cfg.map((c, i) =>
                all.includes(i + 1) && ['prompt', 'number'].includes(c.k)
                    ? ((nodeOf(i).querySelector('input') as HTMLInputElement | null)?.value ?? 'none')
                    : '-',
            );
            return { shown, typed, depth: useOverlayCallbackStore().overlays.value.length };
        },
        async stop() {
            await clearOverlays(containers);
        },
    };
}
