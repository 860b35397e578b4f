import { useOverlayContainerStore, useToastContainerStore } from '@/stores';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { box, clearOverlays, vlossom } from '#h/app';

const UNIT = 100_000;
const SETTLE = 64;
let serial = 0;

export default function create(): Adapter {
    const $vs = vlossom();
    let cfg: any[] = [];
    let ids: string[] = [];
    let containers: string[] = [];
    let positions: string[] = [];

    const nodes = (root: ParentNode) => Array.from(root.querySelectorAll('.vs-toast'));
    const nodeOf = (i: number) => {
        const n = nodes(document).find((x) => x.textContent?.includes(`[${ids[i]}]`));
        if (!n) throw new Error(`toast ${i + 1} is not rendered`);
        return n;
    };

    return {
        start(c, obs) {
            fakeTimers();
            cfg = c.items;
            containers = Object.keys(obs.shown);
            positions = Object.keys(obs.shown[containers[0]]);
            for (const x of containers) {
                if (x === 'body') continue;
                if (c.late.includes(x)) document.querySelector(x)?.remove();
                else box(x.slice(1));
            }
        },
        async step(a) {
            const i = a.i - 1;
            if (a.op === 'show') {
                ids[i] = `t${i + 1}-${serial++}`;
                const [placement, align] = cfg[i].p.split('-');
                const { c, life } = cfg[i];
                const options: any = { id: ids[i], placement, align, autoClose: life > 0, timeout: (life || 1) * UNIT };
                if (c !== 'body') options.container = c;
                const how = (['show', 'info', 'success', 'warning', 'error'] as const)[serial % 5];
                $vs.toast[how](`[${ids[i]}]`, options);
            } else if (a.op === 'appear') box(a.c.slice(1));
            else if (a.op === 'over') nodeOf(i).dispatchEvent(new MouseEvent('mouseenter'));
            else if (a.op === 'leave') nodeOf(i).dispatchEvent(new MouseEvent('mouseleave'));
            else if (a.op === 'closeButton') click(nodeOf(i).querySelector('.vs-toast-close'), 'close button');
            else if (a.op === 'remove') $vs.toast.remove(cfg[i].c, ids[i] ?? 'never');
            else if (a.op === 'clear') a.c === 'body' ? $vs.toast.clear() : $vs.toast.clear(a.c);
            else if (a.op === 'modal') {
                if (a.on) $vs.modal.open('hello', { container: containers[0] });
                else $vs.modal.clear(containers[0]);
                await advance(700);
            } else if (a.op === 'tick') await advance(UNIT);
            await settle();
            await advance(SETTLE);
        },
        observe() {
            const shown: any = {};
            for (const c of containers) {
                shown[c] = {};
                for (const p of positions) {
                    const [placement, align] = p.split('-');
                    const groups = document.querySelectorAll(`${c} > .vs-toast-view > .vs-toast-${placement}.vs-toast-${align}`);
                    shown[c][p] = Array.from(groups).flatMap((g) =>
                        nodes(g).map((n) => Number(/\[t(\d+)-/.exec(n.textContent ?? '')?.[1] ?? -1)),
                    );
                }
            }
            const listed = containers.flatMap((c) => Object.values(shown[c]).flat()).length;
            if (listed !== nodes(document).length) shown.elsewhere = nodes(document).length - listed;
            return { shown, modal: document.querySelectorAll('.vs-modal-node').length > 0 };
        },
        async stop() {
            await clearOverlays(containers);
            useToastContainerStore().clear();
            useOverlayContainerStore().clear();
            await settle();
            await advance(1000);
        },
    };
}
