// Decides one property: explore the specification, generate walks, replay them on the real code.
import { spawn } from 'node:child_process';
import { existsSync, mkdirSync, readFileSync, rmSync, statSync, writeFileSync } from 'node:fs';
import { join } from 'node:path';
import { cfgText, explore } from './tlc.mjs';
import { bfsTree, cover, pathTo } from './paths.mjs';

export const ROOT = new URL('..', import.meta.url).pathname.replace(/\/$/, '');
// a walk takes well below a second; counted in ticks of two seconds, so that a suspended machine does not count
const STUCK_TICKS = 35;
const VITEST = '/repo/packages/vlossom/node_modules/vitest/vitest.mjs';

/** `stuck` is asked now and then whether to give up. */
function run(cmd, args, opts, stuck = () => false) {
    return new Promise((resolve) => {
        const child = spawn(cmd, args, { stdio: ['ignore', 'pipe', 'pipe'], detached: true, ...opts });
        const watch = setInterval(() => {
            if (!stuck()) return;
            try {
                process.kill(-child.pid, 'SIGKILL');
            } catch {
                // ended by itself
            }
        }, 2000);
        let out = '';
        child.stdout.on('data', (d) => (out += d));
        child.stderr.on('data', (d) => (out += d));
        child.on('close', (code) => {
            clearInterval(watch);
            resolve({ code, out });
        });
    });
}

/** Replays walks (already in file form) in `shards` parallel processes and merges their results. */
async function replay({ job, walks, graph, work, shards, budgetMs, tag, stopAfter = 3 }) {
    const walksFile = join(work, `${tag}.walks.json`);
    writeFileSync(
        walksFile,
        JSON.stringify({
            obs: graph.nodes.map((n) => n.obs),
            cfg: Object.fromEntries([...new Set(walks.map((w) => w.init))].map((i) => [i, graph.nodes[i].cfg])),
            acts: graph.acts,
            walks: walks.map((w) => ({ init: w.init, steps: w.edges.map((e) => [graph.edges[e][1], graph.edges[e][2]]) })),
        }),
    );
    const n = Math.max(1, Math.min(shards, Math.ceil(walks.length / 10)));
    const results = await Promise.all(
        Array.from({ length: n }, async (_, shard) => {
            const out = join(work, `${tag}.${shard}.out.json`);
            const jobFile = join(work, `${tag}.${shard}.job.json`);
            // the walk being replayed, rewritten at the start of each
            const at = join(work, `${tag}.${shard}.at`);
            rmSync(out, { force: true });
            rmSync(at, { force: true });
            let last = 0;
            let quiet = 0;
            const tick = () => {
                const now = existsSync(at) ? statSync(at).mtimeMs : Infinity;
                quiet = now === last ? quiet + 1 : 0;
                last = now === Infinity ? 0 : now;
                return quiet > STUCK_TICKS;
            };
            writeFileSync(
                jobFile,
                JSON.stringify({
                    adapter: job.adapter, walks: walksFile, shard, shards: n, out, at, budgetMs, stopAfter,
                    keys: job.keys, options: job.options,
                }),
            );
            const r = await run('node', [VITEST, 'run', '--config', join(ROOT, 'harness/vitest.config.mjs')], {
                cwd: join(ROOT, 'harness'),
                env: { ...process.env, VERIF_JOB: jobFile, VERIF_CACHE: join(work, `vite-${shard}`), TZ: 'UTC', CI: '1', NO_COLOR: '1' },
            }, tick);
            if (!existsSync(out) && quiet > STUCK_TICKS) {
                const walk = Number(readFileSync(at, 'utf8'));
                return { walks: 0, steps: 0, done: false, ops: {}, mismatches: [{ walk, step: walks[walk].edges.length - 1, error: 'did not come to an end' }] };
            }
            if (!existsSync(out)) return { fatal: r.out.slice(-4000) };
            return JSON.parse(readFileSync(out, 'utf8'));
        }),
    );
    const merged = { walks: 0, steps: 0, mismatches: [], done: true, ops: {}, fatal: null };
    for (const r of results) {
        if (r.fatal) {
            merged.fatal = r.fatal;
            merged.done = false;
            continue;
        }
        merged.walks += r.walks;
        merged.steps += r.steps;
        merged.done &&= r.done;
        merged.mismatches.push(...r.mismatches);
        for (const [k, v] of Object.entries(r.ops)) merged.ops[k] = (merged.ops[k] ?? 0) + v;
    }
    merged.mismatches.sort((a, b) => a.walk - b.walk);
    return merged;
}

const describe = (graph, walk, upto = walk.edges.length) => walk.edges.slice(0, upto).map((e) => graph.acts[graph.edges[e][1]]);

export function loadKnown() {
    const f = join(ROOT, 'known-findings.json');
    return existsSync(f) ? JSON.parse(readFileSync(f, 'utf8')).findings : [];
}

/** A listed finding matches one job and the exact last action and configuration of the failing history. */
function matchKnown(known, id, jobName, cfg, acts) {
    const last = acts[acts.length - 1] ?? null;
    return known.find(
        (k) =>
            k.property === id &&
            k.job === jobName &&
            JSON.stringify(k.action) === JSON.stringify(last) &&
            (k.config === undefined || JSON.stringify(k.config) === JSON.stringify(cfg)),
    );
}

/** With `only` (a replay file's content) just its walk is replayed, and no evidence is written. */
export async function check(id, spec, { tier, seed, only }) {
    const t0 = Date.now();
    const work = join(ROOT, '.work', id);
    rmSync(work, { recursive: true, force: true });
    mkdirSync(work, { recursive: true });
    const shards = Number(process.env.VERIF_SHARDS ?? 8);
    const known = loadKnown();
    const violations = [];
    const knownHit = new Map();
    const errors = [];
    const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, steps_compared: 0, exhaustive: true, models: [], samples: [] };

    for (const job of spec.jobs) {
        if (job.tiers && !job.tiers.includes(tier)) continue;
        const name = job.name ?? job.module;
        if (only && only.job !== name) continue;
        const jw = join(work, name);
        const conf = { ...job, ...(tier === 'thorough' ? job.thorough ?? {} : {}) };
        const te = Date.now();
        const graph = await explore({
            specDir: join(ROOT, 'specs'),
            module: conf.module,
            cfg: cfgText(conf),
            workDir: jw,
            heapMb: conf.heapMb,
            workers: conf.workers ?? 1,
        });
        if (!graph.ok) {
            // The specification does not depend on /repo, so this is an error of the check, not of the code.
            errors.push(`${name}: TLC exit ${graph.code}\n${graph.log.slice(-3000)}`);
            continue;
        }
        const missing = graph.nodes.findIndex((n) => !n);
        if (missing >= 0 || !graph.inits.length) {
            errors.push(`${name}: incomplete graph (${graph.nodes.length} nodes, ${graph.inits.length} initial)`);
            continue;
        }
        const tlcMs = Date.now() - te;
        const walks = only ? [only.walk] : cover(graph, { maxLen: conf.maxLen ?? 40, seed, random: conf.random ?? 50, randomLen: conf.randomLen ?? 60 });
        const r = await replay({ job: conf, walks, graph, work: jw, shards, budgetMs: conf.budgetMs ?? (tier === 'thorough' ? 3000000 : 240000), tag: 'main' });
        if (r.fatal) errors.push(`${name}: harness failed\n${r.fatal}`);
        const expectedOps = new Set(graph.acts.map((a) => a.op));
        const coveredEdges = new Set();
        // a walk ends at its first difference, so nothing is claimed of the transitions after it
        if (r.done && !r.mismatches.length) for (const w of walks) for (const e of w.edges) coveredEdges.add(e);
        cov.states += graph.nodes.length;
        cov.transitions += graph.edges.length;
        cov.traces_validated_against_impl += r.walks;
        cov.steps_compared += r.steps;
        if (!r.done || coveredEdges.size !== graph.edges.length) cov.exhaustive = false;
        cov.models.push({
            model: conf.module, name, constants: { ...conf.constants, ...conf.substitutions }, invariants: conf.invariants ?? [],
            properties: conf.properties ?? [], states: graph.nodes.length, transitions: graph.edges.length,
            initial_states: graph.inits.length, depth: graph.stats.depth, walks: r.walks, steps: r.steps,
            actions_replayed: r.ops, all_transitions_replayed: r.done && coveredEdges.size === graph.edges.length,
            tlc_ms: tlcMs, replay_ms: Date.now() - te - tlcMs,
        });
        for (const w of [walks[0], walks[Math.floor(walks.length / 2)]].filter(Boolean))
            cov.samples.push({ model: name, config: graph.nodes[w.init].cfg, actions: describe(graph, w).slice(0, 12) });
        if (r.done && !r.mismatches.length && !only) {
            const unseen = [...expectedOps].filter((o) => !r.ops[o]);
            if (unseen.length) errors.push(`${name}: actions never replayed: ${unseen.join(', ')}`);
        }
        if (r.mismatches.length) {
            // Shrink: the shortest way to the failing transition, else the failing prefix itself.
            const parent = bfsTree(graph);
            const cands = [];
            for (const m of r.mismatches.slice(0, 12)) {
                const w = walks[m.walk];
                const prefix = { init: w.init, edges: m.step < 0 ? [] : w.edges.slice(0, m.step + 1) };
                if (prefix.edges.length) {
                    const last = prefix.edges[prefix.edges.length - 1];
                    const p = pathTo(graph, parent, graph.edges[last][0]);
                    cands.push({ m, walk: { init: p.init, edges: [...p.edges, last] } });
                }
                cands.push({ m, walk: prefix });
            }
            const rr = await replay({ job: conf, walks: cands.map((c) => c.walk), graph, work: jw, shards: 1, budgetMs: 120000, tag: 'shrink', stopAfter: 1e9 });
            const seen = new Set();
            const take = (walk, m) => {
                const acts = describe(graph, walk, m.step < 0 ? 0 : m.step + 1);
                const cfg = graph.nodes[walk.init].cfg;
                const k = matchKnown(known, id, name, cfg, acts);
                if (k) {
                    knownHit.set(JSON.stringify(k), k);
                    return;
                }
                const keyOf = JSON.stringify([cfg, acts]);
                if (seen.has(keyOf)) return;
                seen.add(keyOf);
                violations.push({ property: id, job: name, config: cfg, actions: acts, expected: m.expected, actual: m.actual, error: m.error, walk: { init: walk.init, edges: walk.edges } });
            };
            if (rr.mismatches.length) for (const m of rr.mismatches) take(cands[m.walk].walk, m);
            else for (const c of cands) take(c.walk, c.m);
        }
    }

    if (spec.extra) {
        const x = await spec.extra({ tier, seed, work, cov });
        violations.push(...(x.violations ?? []));
        errors.push(...(x.errors ?? []));
    }

    mkdirSync(join(ROOT, 'replays'), { recursive: true });
    violations.sort((a, b) => a.actions.length - b.actions.length);
    for (const [i, v] of violations.slice(0, 5).entries()) {
        const f = join(ROOT, 'replays', `${id}-${i}.json`);
        writeFileSync(f, JSON.stringify({ ...v, tier, seed }, null, 1));
        console.log(`VIOLATION property=${id} replay=${f}`);
        console.log(`  model ${v.job} config ${JSON.stringify(v.config)}`);
        console.log(`  history ${JSON.stringify(v.actions)}`);
        if (v.error) console.log(`  error ${v.error}`);
        else console.log(`  expected ${JSON.stringify(v.expected)}\n  actual   ${JSON.stringify(v.actual)}`);
    }
    for (const k of knownHit.values()) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
    for (const e of errors) console.error(`ERROR ${e}`);

    mkdirSync(join(ROOT, 'evidence'), { recursive: true });
    if (!only) writeFileSync(
        join(ROOT, 'evidence', `${id}.json`),
        JSON.stringify(
            {
                property: id, tier, seed, level: 'model_checking', coverage: cov,
                assumptions: spec.assumptions ?? [
                    'jsdom stands in for the browser; timers and frames are driven by the model',
                    'bounded constants as listed per model',
                ],
                wall_s: (Date.now() - t0) / 1000,
                violations: violations.length,
            },
            null,
            1,
        ),
    );
    const m = cov.models.map((x) => `${x.name}: ${x.states} states, ${x.transitions} transitions, ${x.walks} walks, ${x.steps} steps (tlc ${x.tlc_ms} ms, replay ${x.replay_ms} ms)`);
    console.log(`${id} ${tier}: ${m.join('; ')}`);
    if (!process.env.VERIF_KEEP) rmSync(work, { recursive: true, force: true });
    return violations.length ? 1 : errors.length ? 2 : 0;
}
