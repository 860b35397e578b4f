import { effectScope, ref, type EffectScope } from 'vue';
import { useStyleSet } from '@/composables';
import { useOptionsStore } from '@/stores';
import { settle, type Adapter } from '#h/core';

/** A style set with the given keys; every value names its source. */
function make(keys: string[], tag: string) {
    const o: any = {};
    if (keys.includes('w')) o.width = tag;
    if (keys.includes('v')) o.$size = tag;
    if (keys.includes('p')) o.$part = { ...o.$part, color: tag };
    if (keys.includes('q')) o.$part = { ...o.$part, inner: { gap: tag } };
    return o;
}

export default function create(): Adapter {
    let scope: EffectScope;
    let keys: string[] = [];
    let mid: string[] = [];
    let kind = 'none';
    let presets = true;
    const styleSet = ref<any>();
    const base = ref<any>({});
    const add = ref<any>({});
    let res: ReturnType<typeof useStyleSet>;
    const register = () => useOptionsStore().setStyleSet(presets ? ({ mine: { VsThing: make(mid, 'named') }, other: { VsOther: make(['w', 'v', 'p', 'q'], 'wrong') } } as any) : {});
    const apply = () => {
        register();
        styleSet.value = { none: undefined, given: make(mid, 'given'), named: 'mine', unknown: 'nothing', other: 'other' }[kind];
    };

    return {
        async start(c) {
            keys = c.keys;
            mid = [];
            kind = 'none';
            presets = true;
            base.value = {};
            add.value = {};
            apply();
            scope = effectScope();
            res = scope.run(() => useStyleSet('VsThing', styleSet, base, add))!;
        },
        async step(a) {
            if (a.op === 'base') base.value = make(a.keys, 'base');
            else if (a.op === 'add') add.value = make(a.keys, 'add');
            else if (a.op === 'mid') ((mid = a.keys), apply());
            else if (a.op === 'kind') ((kind = a.to), apply());
            else if (a.op === 'presets') ((presets = a.on), register());
            await settle(1);
        },
        observe() {
            const s: any = res.componentStyleSet.value;
            const variable = (res.styleSetVariables.value as any)['--vs-thing-size'];
            const inline: any = res.componentInlineStyle.value;
            const found: any = {
                w: inline.width === s.width ? (s.width ?? '-') : `inline ${inline.width}, set ${s.width}`,
                v: variable === s.$size ? (s.$size ?? '-') : `variable ${variable}, set ${s.$size}`,
                p: s.$part?.color ?? '-',
                q: s.$part?.inner?.gap ?? '-',
            };
            return Object.fromEntries(keys.map((k) => [k, found[k]]));
        },
        stop() {
            scope.stop();
            useOptionsStore().setStyleSet({});
        },
    };
}
