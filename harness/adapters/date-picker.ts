import { advance, click, fakeTimers, settle, type Adapter } from '#h/core';
import { type as typeText } from '#h/fields';
import { mountComponent, type Mounted } from '#h/mount';

export default function create(): Adapter {
    let m: Mounted;
    let log: string[] = [];
    let undo: () => void;
    const input = () => m.root.querySelector('input') as HTMLInputElement;

    return {
        async start(c) {
            fakeTimers();
            const proto = HTMLInputElement.prototype as any;
            const own = Object.getOwnPropertyDescriptor(proto, 'showPicker');
            const focus = proto.focus;
            delete proto.showPicker;
            if (c.picker !== 'missing') {
                proto.showPicker = () => {
                    if (c.picker === 'refuses') throw new DOMException('no user gesture', 'NotAllowedError');
                    log.push('picker');
                };
            }
            Object.defineProperty(proto, 'focus', {
                configurable: true,
                value() {
                    log.push('focus');
                },
            });
            undo = () => {
                delete proto.showPicker;
                if (own) Object.defineProperty(proto, 'showPicker', own);
                delete proto.focus;
                if (proto.focus !== focus) proto.focus = focus;
            };
            m = mountComponent('VsDatePicker', { type: 'date', disabled: false, readonly: false, modelValue: c.first }, {
                bind: ['modelValue'],
                listen: ['change', 'clear', 'invalid'],
            });
            await settle();
        },
        async step(a) {
            log = [];
            m.events.length = 0;
            if (a.op === 'assign') m.props.modelValue = a.to;
            else if (a.op === 'type') m.props.type = a.to;
            else if (a.op === 'both') Object.assign(m.props, { type: a.type, modelValue: a.to });
            else if (a.op === 'enter') typeText(input(), a.to);
            else if (a.op === 'empty') {
                if (a.how === 'button') click(m.root.querySelector('.vs-clear-button'), 'clear button');
                else if (a.how === 'keys') typeText(input(), '');
                else m.inst.clear();
            } else if (a.op === 'lock') Object.assign(m.props, { disabled: a.to === 'disabled', readonly: a.to === 'readonly' });
            else if (a.op === 'open') {
                if (a.how === 'call') m.inst.open();
                else click(m.root.querySelector(a.how === 'icon' ? '.vs-date-picker-icon' : '.vs-date-picker'), a.how);
            }
            await settle();
            await advance(10);
            if (a.op === 'open') return log;
            const told = m.events.filter((e) => ['change', 'clear', 'invalid'].includes(e[0])).map((e) => (e[0] === 'invalid' ? `invalid ${(e[1] as any).input}` : e[0] === 'change' ? `change ${e[1]}` : e[0]));
            // the order of different events is not laid down, and assignments from outside may be answered by a change
            if (a.op === 'assign' || a.op === 'both' || a.op === 'type') return told.filter((t) => !t.startsWith('change'));
            return told.sort((x, y) => Number(x.startsWith('change')) - Number(y.startsWith('change')));
        },
        observe() {
            return { bound: m.props.modelValue, shown: input().value, type: input().type };
        },
        async stop() {
            m.unmount();
            undo();
            await advance(1000);
        },
    };
}
