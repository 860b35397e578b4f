import { advance, deferred, fakeTimers, settle, type Adapter } from '#h/core';
import { abstract, KINDS, mountField, type Field } from '#h/fields';

// Same lists as in the specification, by name.
const RULES: Record<string, string[]> = { '-': [], S: ['S'], A: ['A'], AB: ['A', 'B'], SA: ['S', 'A'], SB: ['S', 'B'] };
const MSGS: Record<string, string[]> = { '-': [], I: ['I'], L: ['L'], IL: ['I', 'L'], LK: ['L', 'K'], PL: ['P', 'L'] };
const REJECTS: Record<string, string> = { S: 'x', A: 'y', B: 'x' };

export default function create(): Adapter {
    let f: Field;
    let kind = '';
    let open: { c: string; v: string; answer: () => void }[] = [];

    const later = (c: string, v: string, result: any) => {
        const d = deferred();
        open.push({ c, v, answer: () => d.resolve(result) });
        return d.promise;
    };
    const rule = (r: string) => (value: any) => {
        const v = abstract(kind, value);
        const text = v === REJECTS[r] ? `R:${r}` : '';
        return r === 'S' ? text : later(r, v, text);
    };
    const message = (m: string) => m === 'P' ? { state: 'info', text: 'P' } : (value: any) => {
        const v = abstract(kind, value);
        const msg = { state: 'info', text: `M:${m}:${v}` };
        return m === 'I' ? msg : later(m, v, msg);
    };

    return {
        async start(c) {
            fakeTimers();
            kind = c.kind;
            open = [];
            f = mountField(kind, c.init, { required: true, rules: RULES[c.rules].map(rule), messages: MSGS[c.msgs].map(message) });
            await settle();
        },
        async step(a) {
            let out: any;
            if (a.op === 'user') await f.user(a.v);
            else if (a.op === 'assign') await f.assign(a.v);
            else if (a.op === 'rules') f.props.rules = RULES[a.list].map(rule);
            else if (a.op === 'msgs') f.props.messages = MSGS[a.list].map(message);
            else if (a.op === 'noDefaults') f.props.noDefaultRules = a.on;
            else if (a.op === 'answer') {
                const [now, rest] = [open.filter((o) => o.c === a.c && o.v === a.v), open.filter((o) => o.c !== a.c || o.v !== a.v)];
                open = rest;
                now.forEach((o) => o.answer());
            } else if (a.op === 'validate') out = f.inst().validate();
            else if (a.op === 'clear') f.inst().clear();
            await settle();
            return out;
        },
        observe() {
            const errors: any = { D: 0, S: 0, A: 0, B: 0 };
            const notes: any = {};
            for (const m of ['I', 'L', 'K']) notes[m] = { '': 0, x: 0, y: 0 };
            let plain = 0;
            let other = 0;
            for (const t of f.texts()) {
                const [p, c, v] = t.split(':');
                if (p === 'R') errors[c]++;
                else if (p === 'M' && notes[c]?.[v] !== undefined) notes[c][v]++;
                else if (/^required$/i.test(t)) errors.D++;
                else if (t === 'P') plain++;
                else other++;
            }
            return {
                value: abstract(kind, f.model.value),
                shows: KINDS[kind].displayed(f.root),
                changed: f.seen.changed,
                valid: f.seen.valid,
                error: f.error(),
                errors,
                notes,
                plain,
                other,
            };
        },
        async stop() {
            f.unmount();
            await settle();
            await advance(1000);
        },
    };
}
