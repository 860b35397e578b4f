import { h, markRaw } from 'vue';
import { settle, type Adapter } from '#h/core';
import { mountComponent, type Mounted } from '#h/mount';

const Paragraph = markRaw({ props: ['msg'], render: (p: any) => h('p', null, p.msg) });

export default function create(): Adapter {
    let m: Mounted;

    function inner(el: Node): string {
        return [...el.childNodes].map((n) => (n instanceof Element ? outer(n) : n.nodeType === Node.TEXT_NODE ? n.textContent : '')).join('');
    }
    function outer(el: Element): string {
        const id = el.id ? ` id=${el.id}` : '';
        return el.localName === 'br' ? '[br]' : `[${el.localName}${id}]${inner(el)}[/${el.localName}]`;
    }

    return {
        async start() {
            m = mountComponent('VsRender', { content: '', componentProps: { msg: '-' }, class: 'mark', 'data-mark': 1 });
            await settle();
        },
        async step(a) {
            if (a.op === 'give') m.props.content = a.text;
            else if (a.op === 'component') m.props.content = Paragraph;
            else m.props.componentProps = { msg: a.to };
            await settle();
        },
        observe() {
            const root = m.root.firstElementChild!;
            const wrapped = ['div', 'span'].includes(root.localName);
            return {
                shown: (wrapped ? inner(root) : outer(root)).replace(/\s+/g, ' ').trim(),
                marked: m.root.childNodes.length === 1 && root.classList.contains('mark') && root.getAttribute('data-mark') === '1',
            };
        },
        stop() {
            m.unmount();
        },
    };
}
