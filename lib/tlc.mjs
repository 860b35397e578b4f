// Runs TLC on a specification and collects the state graph it prints.
import { spawn } from 'node:child_process';
import { createInterface } from 'node:readline';
import { mkdirSync, writeFileSync, rmSync } from 'node:fs';
import { join } from 'node:path';

const JAR = process.env.TLA_JAR ?? '/opt/veriftools/tla/tla2tools.jar';
const CM = process.env.TLA_COMMUNITY ?? '/opt/veriftools/tla/CommunityModules-deps.jar';

function cfgValue(v) {
    if (typeof v === 'boolean') return v ? 'TRUE' : 'FALSE';
    if (typeof v === 'number') return String(v);
    if (Array.isArray(v)) return `{${v.map(cfgValue).join(', ')}}`;
    return JSON.stringify(v);
}

// TLC prints record fields in the order they were written; identity of states must not depend on it.
function canon(v) {
    if (Array.isArray(v)) return v.map(canon);
    if (v && typeof v === 'object') return Object.fromEntries(Object.keys(v).sort().map((k) => [k, canon(v[k])]));
    return v;
}

/** Text of a TLC configuration for graph generation and property checking. */
export function cfgText({ constants = {}, substitutions = {}, invariants = [], properties = [], emit = true, postcondition }) {
    const lines = ['INIT Init', 'NEXT Next', 'CHECK_DEADLOCK FALSE'];
    if (emit) lines.push('VIEW View', 'ACTION_CONSTRAINT EmitEdge', 'INVARIANT EmitNode');
    for (const [k, v] of Object.entries(constants)) lines.push(`CONSTANT ${k} = ${cfgValue(v)}`);
    for (const [k, v] of Object.entries(substitutions)) lines.push(`CONSTANT ${k} <- ${v}`);
    for (const i of invariants) lines.push(`INVARIANT ${i}`);
    for (const p of properties) lines.push(`PROPERTY ${p}`);
    if (postcondition) lines.push(`POSTCONDITION ${postcondition}`);
    return lines.join('\n') + '\n';
}

/**
 * Explores `specDir/module.tla` exhaustively. Returns {nodes, edges, inits, stats, error}.
 * nodes: [{obs, cfg}] ; edges: [[from, actIndex, to]] ; acts: [action record].
 */
export async function explore({ specDir, module, cfg, workDir, heapMb = 3000, timeoutMs = 600000, workers = 1, extra = [] }) {
    mkdirSync(workDir, { recursive: true });
    const cfgFile = join(workDir, `${module}.cfg`);
    writeFileSync(cfgFile, cfg);
    const meta = join(workDir, 'tlc-meta');
    rmSync(meta, { recursive: true, force: true });
    mkdirSync(meta, { recursive: true });
    const cp = [JAR, CM].filter(Boolean).join(':');
    const args = [
        `-Xmx${heapMb}m`, `-Djava.io.tmpdir=${meta}`, '-XX:+UseParallelGC', `-DTLA-Library=${specDir}`, '-cp', cp, 'tlc2.TLC',
        '-workers', String(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfgFile, ...extra,
        join(specDir, `${module}.tla`),
    ];
    const child = spawn('java', args, { cwd: workDir, stdio: ['ignore', 'pipe', 'pipe'] });
    const timer = setTimeout(() => child.kill('SIGKILL'), timeoutMs);
    const ids = new Map();
    const nodes = [];
    const inits = [];
    const acts = [];
    const actIds = new Map();
    const edges = [];
    const edgeSet = new Set();
    const log = [];
    const stats = {};
    const nodeId = (key) => {
        const k = JSON.stringify(canon(key));
        let id = ids.get(k);
        if (id === undefined) {
            id = nodes.length;
            ids.set(k, id);
            nodes.push(null);
        }
        return id;
    };
    const rl = createInterface({ input: child.stdout, crlfDelay: Infinity });
    rl.on('line', (line) => {
        if (line.startsWith('"N {')) {
            const n = JSON.parse(JSON.parse(line).slice(2));
            const id = nodeId(n.k);
            nodes[id] = { obs: n.o, cfg: n.c };
            if (n.i) inits.push(id);
        } else if (line.startsWith('"E {')) {
            const e = JSON.parse(JSON.parse(line).slice(2));
            e.a = canon(e.a);
            const a = JSON.stringify(e.a);
            let ai = actIds.get(a);
            if (ai === undefined) {
                ai = acts.length;
                actIds.set(a, ai);
                acts.push(e.a);
            }
            const f = nodeId(e.k);
            const t = nodeId(e.t);
            const key = `${f},${ai},${t}`;
            if (!edgeSet.has(key)) {
                edgeSet.add(key);
                edges.push([f, ai, t]);
            }
        } else {
            if (!/^(Parsing file|Semantic processing|Linting)/.test(line)) log.push(line);
            const m = /^(\d+) states generated, (\d+) distinct states found/.exec(line.replace(/,(?=\d)/g, ''));
            if (m) {
                stats.generated = Number(m[1]);
                stats.distinct = Number(m[2]);
            }
            const d = /depth of the complete state graph search is (\d+)/.exec(line);
            if (d) stats.depth = Number(d[1]);
        }
    });
    let err = '';
    child.stderr.on('data', (d) => (err += d));
    const code = await new Promise((resolve) => child.on('close', resolve));
    clearTimeout(timer);
    rmSync(meta, { recursive: true, force: true });
    const ok = code === 0;
    return { ok, code, keys: [...ids.keys()], nodes, inits, acts, edges, stats, log: log.join('\n') + err };
}
