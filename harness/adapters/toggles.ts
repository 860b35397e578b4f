import { createApp, h, ref, type App } from 'vue';
import { VlossomComponents } from '@/components/component-map';
import { appContext } from '#h/app';
import { deferred, settle, type Adapter } from '#h/core';

// what the abstract values are for a shared value, and for a single control (unchecked, checked, neither)
const MEMBERS: Record<string, Record<string, () => any>> = {
    plain: { a: () => 'A', b: () => 'B', c: () => 'C', z: () => 'Z' },
    object: { a: () => ({ id: 1 }), b: () => ({ id: 2 }), c: () => ({ id: 3, in: { x: [] } }), z: () => ({ id: 4 }) },
    zero: { a: () => 0, b: () => '', c: () => false, z: () => 'x' },
};
const SINGLES: Record<string, [() => any, () => any, () => any]> = {
    plain: [() => false, () => true, () => 'neither'],
    object: [() => ({ no: 1 }), () => ({ yes: 1 }), () => ({ other: 1 })],
    zero: [() => 1, () => 0, () => 2],
    swapped: [() => true, () => false, () => 'neither'],
    nothing: [() => null, () => 'on', () => 'neither'],
};

export default function create(): Adapter {
    let cfg: any;
    let app: App;
    let root: HTMLElement;
    let model: any;
    let refs: Record<string, any> = {};
    let told: any[][] = [];
    let now = true;
    let waiting: ReturnType<typeof deferred>[] = [];

    const single = () => /1$/.test(cfg.kind);
    const radio = () => cfg.kind.startsWith('radio');
    const real = (v: string[]): any => {
        if (single()) return SINGLES[cfg.rep][v.length === 0 ? 0 : v[0] === 'a' ? 1 : 2]();
        const of = v.map((x) => MEMBERS[cfg.rep][x]());
        return radio() ? (of.length ? of[0] : null) : of;
    };
    const same = (a: any, b: any) => typeof a === typeof b && JSON.stringify(a) === JSON.stringify(b);
    const member = (v: any) => Object.keys(MEMBERS[cfg.rep]).find((k) => same(MEMBERS[cfg.rep][k](), v)) ?? `?${JSON.stringify(v)}`;
    const abstract = (v: any): any => {
        if (single()) return [[], ['a'], ['z']].find((_, i) => same(SINGLES[cfg.rep][i](), v)) ?? `?${JSON.stringify(v)}`;
        if (radio()) return v === null || v === undefined ? [] : [member(v)];
        return Array.isArray(v) ? v.map(member) : `?${JSON.stringify(v)}`;
    };
    const names = () => (single() ? ['a'] : ['a', 'b', 'c']);
    const input = (c: string) => root.querySelectorAll('input')[names().indexOf(c)];
    const guard = (...args: any[]) => {
        told.push(args);
        if (cfg.guard === 'now') return now;
        const d = deferred();
        waiting.push(d);
        return d.promise;
    };
    function node(comp: string, key: string, props: any) {
        return h((VlossomComponents as any)[comp], {
            key,
            ref: (r: any) => (refs[key] = r),
            modelValue: model.value,
            'onUpdate:modelValue': (v: any) => (model.value = v),
            ...(cfg.guard === 'none' ? {} : { beforeChange: guard }),
            ...props,
        });
    }

    return {
        async start(c) {
            cfg = c.x;
            refs = {};
            told = [];
            waiting = [];
            model = ref(real(c.start[0]));
            root = document.createElement('div');
            document.body.appendChild(root);
            // the settings of the controls stay the same objects throughout
            const of: Record<string, any> = Object.fromEntries(names().map((n) => [n, single() ? null : MEMBERS[cfg.rep][n]()]));
            const pair = single() ? { trueValue: SINGLES[cfg.rep][1](), falseValue: SINGLES[cfg.rep][0]() } : {};
            const options = names().map((n) => ({ name: n, is: of[n] }));
            const set = { options, optionLabel: 'name', optionValue: 'is' };
            const checked = (n: string) => (n === c.start[1] ? { checked: true } : {});
            app = createApp({
                render: () => {
                    switch (cfg.kind) {
                        case 'checkset':
                            return node('VsCheckboxSet', 'a', set);
                        case 'radioset':
                            return node('VsRadioSet', 'a', set);
                        case 'check1':
                        case 'switch1':
                            return node(cfg.kind === 'check1' ? 'VsCheckbox' : 'VsSwitch', 'a', { ...pair, ...checked('a') });
                        case 'radioN':
                            return names().map((n) => node('VsRadio', n, { radioValue: of[n], name: 'group', ...checked(n) }));
                        default:
                            return names().map((n) => node(cfg.kind === 'checkN' ? 'VsCheckbox' : 'VsSwitch', n, { trueValue: of[n], multiple: true, ...checked(n) }));
                    }
                },
            });
            Object.assign(app._context.provides, appContext()._context.provides);
            Object.assign(app._context.components, appContext()._context.components);
            app.mount(root);
            await settle();
        },
        async step(a) {
            told = [];
            let out: any;
            if (a.op === 'toggle') {
                now = a.ok ?? true;
                input(a.c).click();
                await settle();
                if (told.length > 1) return 'guard asked twice';
                // a switch is not told which of its values it is
                out = told.length ? [abstract(told[0][0]), abstract(told[0][1]), cfg.kind.startsWith('switch') || single() ? a.c : member(told[0][2])] : [];
            } else if (a.op === 'answer') waiting.splice(a.i - 1, 1)[0].resolve(a.ok);
            else if (a.op === 'assign') model.value = real(a.to);
            else refs.a.clear();
            await settle();
            return out;
        },
        observe() {
            const shown: Record<string, boolean | string> = {};
            for (const n of names()) {
                const marked = input(n).closest('.vs-checkbox, .vs-switch')?.classList.contains('vs-checked') ?? input(n).checked;
                shown[n] = marked === input(n).checked ? marked : `marked ${marked}`;
            }
            return { val: abstract(model.value), shown };
        },
        stop() {
            app.unmount();
            root.remove();
        },
    };
}
