import { reactive } from 'vue';
import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

export default function create(): Adapter {
    let m: Mounted;
    let works = true;
    let log: string[] = [];
    let undo: (() => void)[] = [];
    const page = reactive({ text: '' });
    const stub = (o: any, name: string, d: PropertyDescriptor) => {
        const own = Object.getOwnPropertyDescriptor(o, name);
        Object.defineProperty(o, name, { configurable: true, ...d });
        undo.push(() => (own ? Object.defineProperty(o, name, own) : delete o[name]));
    };

    return {
        async start() {
            fakeTimers();
            works = true;
            undo = [];
            // not part of jsdom
            stub(HTMLElement.prototype, 'innerText', {
                get() {
                    return this.textContent;
                },
            });
            stub(navigator, 'clipboard', {
                value: {
                    writeText: async (t: string) => {
                        if (!works) throw new Error('denied');
                        log.push(`written ${t}`);
                    },
                },
            });
            stub(window, 'open', { value: (url: string) => log.push(`opened ${url}`) });
            page.text = 'one';
            m = mountComponent('VsTextWrap', { copy: true, link: '' }, { listen: ['copied'], slots: { default: () => page.text } });
            await settle();
        },
        async step(a) {
            log = [];
            m.events.length = 0;
            if (a.op === 'text') page.text = a.to;
            else if (a.op === 'link') m.props.link = a.to;
            else if (a.op === 'works') works = a.to;
            else if (a.op === 'copy') click(m.root.querySelector('.vs-copy-button'), 'copy button');
            else if (a.op === 'open') click(m.root.querySelector('.vs-link-button'), 'link button');
            else if (a.op === 'second') await advance(1000);
            await settle();
            return [...log, ...m.events.map((e) => `${e[0]} ${e[1]}`)];
        },
        observe() {
            return { mark: !!m.root.querySelector('.vs-copy-button .copied'), button: !!m.root.querySelector('.vs-link-button') };
        },
        async stop() {
            m.unmount();
            undo.forEach((f) => f());
            await advance(5000);
        },
    };
}
