// Replays walks of a specification's state graph on the real code and compares observables after every step.
import { it, vi } from 'vitest';
import { readFileSync, writeFileSync } from 'node:fs';
import type { Adapter } from './core';

const adapters = import.meta.glob('./adapters/*.ts');

function canon(v: any): any {
    if (Array.isArray(v)) return v.map(canon);
    if (v && typeof v === 'object') {
        return Object.fromEntries(
            Object.keys(v)
                .sort()
                .map((k) => [k, canon(v[k])]),
        );
    }
    return v === undefined ? null : v;
}

/** Equality in which an expected "*" leaves the actual value open. */
function same(e: any, a: any): boolean {
    if (e === '*') return true;
    if (!e || !a || typeof e !== 'object' || typeof a !== 'object') return e === a;
    if (Array.isArray(e) !== Array.isArray(a)) return false;
    const keys = Object.keys(e);
    return keys.length === Object.keys(a).length && keys.every((k) => k in a && same(e[k], a[k]));
}

function pick(o: any, keys?: string[]) {
    if (!keys) return o;
    return Object.fromEntries(keys.map((k) => [k, o?.[k]]));
}

it('replay', async () => {
    const job = JSON.parse(readFileSync(process.env.VERIF_JOB as string, 'utf8'));
    const data = JSON.parse(readFileSync(job.walks, 'utf8'));
    const noise = ['warn', 'error', 'log', 'info'] as const;
    if (!process.env.VERIF_NOISE) for (const n of noise) vi.spyOn(console, n).mockImplementation(() => undefined as any);
    const mod: any = await (adapters[`./adapters/${job.adapter}.ts`] as any)();
    const result: any = { walks: 0, steps: 0, mismatches: [], done: true, ops: {} };
    const t0 = performance.now();
    const realNow = performance.now.bind(performance);
    for (let w = job.shard; w < data.walks.length; w += job.shards) {
        if (job.budgetMs && realNow() - t0 > job.budgetMs) {
            result.done = false;
            break;
        }
        const walk = data.walks[w];
        writeFileSync(job.at, String(w));
        const adapter: Adapter = mod.default(job.options ?? {});
        let i = -1;
        let bad: any = null;
        const compare = (node: number) => {
            const expected = canon(pick(data.obs[node], job.keys));
            const actual = canon(pick(adapter.observe(), job.keys ?? Object.keys(data.obs[node])));
            if (!same(expected, actual)) bad = { expected, actual };
        };
        try {
            await adapter.start(structuredClone(data.cfg[walk.init] ?? null), structuredClone(data.obs[walk.init]));
            compare(walk.init);
            for (i = 0; !bad && i < walk.steps.length; i++) {
                const [ai, node] = walk.steps[i];
                const act = data.acts[ai];
                const out = await adapter.step(act);
                result.ops[act.op] = (result.ops[act.op] ?? 0) + 1;
                result.steps++;
                compare(node);
                if (!bad && 'out' in act && !same(canon(act.out), canon(out)))
                    bad = { expected: { out: act.out }, actual: { out: canon(out) } };
                if (bad) break;
            }
        } catch (e: any) {
            bad = { error: String(e?.stack ?? e).split('\n').slice(0, 6).join('\n') };
        }
        try {
            await adapter.stop();
        } catch (e: any) {
            bad ??= { error: 'stop: ' + String(e?.stack ?? e).split('\n').slice(0, 6).join('\n') };
        }
        vi.useRealTimers();
        result.walks++;
        if (bad) {
            result.mismatches.push({ walk: w, step: i, ...bad });
            if (result.mismatches.length >= (job.stopAfter ?? 3)) break;
        }
    }
    result.wall = realNow() - t0;
    writeFileSync(job.out, JSON.stringify(result));
});
