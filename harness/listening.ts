// Counts the listeners of one kind that are on a target.
export function countListeners(kinds: [any, string][]) {
    const undo: (() => void)[] = [];
    const counter = { value: 0, stop: () => undo.splice(0).forEach((u) => u()) };
    for (const [target, type] of kinds) {
        const { addEventListener, removeEventListener } = target;
        // a listener is taken away only with the phase it was added for
        const phase = (options: any) => (typeof options === 'object' ? !!options?.capture : !!options);
        const seen = [new Set<any>(), new Set<any>()];
        target.addEventListener = function (t: string, f: any, ...rest: any[]) {
            const of = seen[Number(phase(rest[0]))];
            if (t === type && !of.has(f)) {
                of.add(f);
                counter.value++;
            }
            return addEventListener.call(target, t, f, ...rest);
        };
        target.removeEventListener = function (t: string, f: any, ...rest: any[]) {
            if (t === type && seen[Number(phase(rest[0]))].delete(f)) counter.value--;
            return removeEventListener.call(target, t, f, ...rest);
        };
        undo.push(() => {
            target.addEventListener = addEventListener;
            target.removeEventListener = removeEventListener;
        });
    }
    return counter;
}
