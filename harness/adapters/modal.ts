import { useOverlayCallbackStore } from '@/stores';
import { advance, click, deferred, fakeTimers, key, settle, type Adapter } from '#h/core';
import { box, clearOverlays, vlossom } from '#h/app';

let serial = 0;

export default function create(): Adapter {
    const $vs = vlossom();
    let cfg: any[] = [];
    let ids: string[] = [];
    let pending: { i: number; d: ReturnType<typeof deferred> }[] = [];
    let out: any;
    let containers: string[] = [];
    const reset = () => {
        const zero = () => cfg.map(() => 0);
        out = { closed: zero(), asked: zero(), results: [], pinged: zero() };
    };
    const track = (p: Promise<boolean>) => void p.then((b) => out.results.push(b));

    function nodeOf(i: number) {
        return Array.from(document.querySelectorAll('.vs-modal-node')).find((n) => n.textContent === ids[i]);
    }

    function open(i: number) {
        const c = cfg[i];
        const id = `m${i + 1}-${serial++}`;
        ids[i] = id;
        const guards: any = {
            none: undefined,
            yes: () => (out.asked[i]++, true),
            no: () => (out.asked[i]++, false),
            undef: () => void out.asked[i]++,
            later: () => {
                out.asked[i]++;
                const d = deferred<boolean>();
                pending.push({ i, d });
                return d.promise;
            },
        };
        const opened = $vs.modal.open(
            id,
            {
                id,
                container: c.c,
                dimmed: true,
                dimClose: c.dim,
                escClose: c.esc,
                beforeClose: guards[c.g],
                callbacks: { close: () => void out.closed[i]++, ping: () => void out.pinged[i]++ },
            },
        );
        if (opened !== id) throw new Error(`open returned ${opened}`);
    }

    return {
        start(c, obs) {
            fakeTimers();
            cfg = c;
            containers = Object.keys(obs.shown);
            for (const x of containers) if (x !== 'body') box(x.slice(1));
            reset();
        },
        async step(a) {
            reset();
            if (a.op === 'open') open(a.i - 1);
            else if (a.op === 'openNowhere') {
                const r = $vs.modal.open('x', { container: '#nowhere' });
                if (r !== '') throw new Error('opened nowhere');
            } else if (a.op === 'close') track(a.c === 'body' ? $vs.modal.close() : $vs.modal.close(a.c));
            else if (a.op === 'closeId') track($vs.modal.closeWithId(cfg[a.i - 1].c, ids[a.i - 1] ?? 'never'));
            else if (a.op === 'escape') key('Escape');
            else if (a.op === 'backdrop') click(nodeOf(a.i - 1)?.querySelector('.vs-dimmed'), 'backdrop');
            else if (a.op === 'answer') pending.splice(a.k - 1, 1)[0].d.resolve(a.b);
            else if (a.op === 'clear') a.c === 'body' ? $vs.modal.clear() : $vs.modal.clear(a.c);
            else if (a.op === 'emit') $vs.modal.emit('ping');
            else if (a.op === 'emitId') $vs.modal.emitWithId(ids[a.i - 1] ?? 'never', 'ping');
            await settle();
            await advance(700);
            return out;
        },
        observe() {
            const shown: any = {};
            for (const c of containers) {
                const list = Array.from(document.querySelectorAll(`${c} > .vs-modal-view .vs-modal-node`));
                shown[c] = list.map((n) => Number(/^m(\d+)-/.exec(n.textContent ?? '')?.[1] ?? -1));
            }
            return { shown, depth: useOverlayCallbackStore().overlays.value.length };
        },
        async stop() {
            for (const p of pending) p.d.resolve(false);
            pending = [];
            await clearOverlays(containers);
        },
    };
}
