/** Stands in for the browser's observer: tells at each frame what it has not told yet. */
export class Watcher {
    static all = new Set<Watcher>();
    told = new Map<Element, boolean | null>();
    constructor(
        public callback: any,
        public options: any,
    ) {
        Watcher.all.add(this);
    }
    observe(el: Element) {
        if (!this.told.has(el)) this.told.set(el, null);
        Watcher.all.add(this);
    }
    unobserve(el: Element) {
        this.told.delete(el);
    }
    disconnect() {
        this.told.clear();
        Watcher.all.delete(this);
    }
    takeRecords() {
        return [];
    }
    frame(inView: (el: Element) => boolean) {
        const entries = [];
        for (const [target, last] of this.told) {
            const isIntersecting = target.isConnected && inView(target);
            if (isIntersecting === last) continue;
            this.told.set(target, isIntersecting);
            entries.push({ target, isIntersecting });
        }
        if (entries.length) this.callback(entries, this);
    }
}
