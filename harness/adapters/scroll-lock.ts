import { useScrollLock } from '@/composables';
import { advance, fakeTimers, settle, type Adapter } from '#h/core';
import { vi } from 'vitest';

const STYLES: Record<string, [string, string, string]> = {
    plain: ['', '', ''],
    auto: ['auto', '3px', ''],
    hidden: ['hidden', '', '5px'],
};

/** Makes the window one of a device with or without touch; undone by the function returned. */
function pretend(touch: boolean) {
    const undo: (() => void)[] = [];
    for (let o: any = window; o; o = Object.getPrototypeOf(o)) {
        const own = Object.getOwnPropertyDescriptor(o, 'ontouchstart');
        if (!own || touch) continue;
        if (!delete o.ontouchstart) throw new Error('ontouchstart stays');
        undo.push(() => Object.defineProperty(o, 'ontouchstart', own));
    }
    if (touch && !('ontouchstart' in window)) {
        (window as any).ontouchstart = null;
        undo.push(() => delete (window as any).ontouchstart);
    }
    (window as any).matchMedia = () => ({ matches: touch, addEventListener() {}, removeEventListener() {} });
    return () => undo.forEach((f) => f());
}

export default function create(): Adapter {
    let boxes: Record<string, HTMLElement> = {};
    let holders: Record<string, ReturnType<typeof useScrollLock>> = {};
    let own: Record<string, string> = {};
    let boxOf: Record<string, string> = {};
    let restore = () => {};
    const setStyle = (b: string, s: string) => {
        own[b] = s;
        const [o, r, p] = STYLES[s];
        Object.assign(boxes[b].style, { overflow: o, paddingRight: r, paddingBottom: p });
    };

    return {
        async start(c) {
            fakeTimers();
            boxes = {};
            holders = {};
            boxOf = {};
            restore = pretend(c.touch);
            for (const b of Object.keys(c.own)) {
                if (b === 'body') boxes[b] = document.body;
                else {
                    boxes[b] = document.createElement('div');
                    boxes[b].id = `lock-${b}`;
                    document.body.appendChild(boxes[b]);
                }
                setStyle(b, c.own[b]);
            }
            for (const [n, b] of c.holders) {
                boxOf[n] = b;
                holders[n] = b === 'body' ? useScrollLock() : useScrollLock(`#lock-${b}`);
            }
        },
        async step(a) {
            if (a.op === 'lock') holders[a.who].lock();
            else if (a.op === 'unlock') holders[a.who].unlock();
            else if (a.op === 'frame') await advance(40);
            else if (a.op === 'style') setStyle(a.box, a.to);
            await settle(1);
        },
        observe() {
            const look: any = {};
            for (const [b, el] of Object.entries(boxes)) {
                const s = el.style;
                const found = [s.overflow, s.paddingRight, s.paddingBottom];
                const pure = JSON.stringify(found) === JSON.stringify(STYLES[own[b]]);
                // an own overflow of hidden can look the same locked and not
                const held = s.overflow === 'hidden' && Object.entries(holders).some(([n, h]) => h.isLocked.value && boxOf[n] === b);
                look[b] = pure && !held ? own[b] : s.overflow === 'hidden' ? 'locked' : `other ${JSON.stringify(found)}`;
            }
            return { look, locked: Object.fromEntries(Object.entries(holders).map(([n, h]) => [n, h.isLocked.value])) };
        },
        async stop() {
            for (const h of Object.values(holders)) h.unlock();
            await advance(40);
            document.body.removeAttribute('style');
            for (const [b, el] of Object.entries(boxes)) if (b !== 'body') el.remove();
            vi.useRealTimers();
            restore();
        },
    };
}
