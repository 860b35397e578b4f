// Shared pieces of the conformance adapters.
import { vi } from 'vitest';

/** One adapter drives one part of the real system, one walk at a time. */
export interface Adapter {
    /** Sets the real system up in the specification's initial state. */
    start(cfg: any, obs: any): Promise<void> | void;
    /** Performs one action of the specification on the real system; returns what is compared with `act.out`. */
    step(act: any): any;
    /** Projects the real system on the observables of the specification. */
    observe(): any;
    /** Tears everything down again. */
    stop(): Promise<void> | void;
}

const realImmediate = setImmediate;

/** Lets every pending microtask (promises, Vue updates) finish; timers do not advance. */
export async function settle(rounds = 2): Promise<void> {
    for (let i = 0; i < rounds; i++) {
        await new Promise((resolve) => realImmediate(resolve as any));
    }
}

export function fakeTimers() {
    vi.useFakeTimers({
        now: 0,
        toFake: [
            'setTimeout',
            'clearTimeout',
            'setInterval',
            'clearInterval',
            'Date',
            'requestAnimationFrame',
            'cancelAnimationFrame',
            'performance',
        ] as any,
    });
}

export async function advance(ms: number): Promise<void> {
    await settle();
    vi.advanceTimersByTime(ms);
    await settle();
}

/** A promise settled by hand. */
export function deferred<T = any>() {
    let resolve!: (v: T) => void;
    let reject!: (e: any) => void;
    const promise = new Promise<T>((a, b) => {
        resolve = a;
        reject = b;
    });
    return { promise, resolve, reject };
}

export function key(code: string, target: EventTarget = document, init: any = {}) {
    const e = new KeyboardEvent('keydown', { key: code, code, bubbles: true, cancelable: true, ...init });
    target.dispatchEvent(e);
    return e;
}

export function click(el: Element | null | undefined, what = 'element') {
    if (!el) throw new Error(`no ${what} to click`);
    (el as HTMLElement).dispatchEvent(new MouseEvent('click', { bubbles: true, cancelable: true }));
}
