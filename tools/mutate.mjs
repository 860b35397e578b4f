#!/usr/bin/env node
// Finds small changes of the code no check notices: `node tools/mutate.mjs P01 P02 [--files substring] [--workers 4] [--seconds 20]`.
// Works on copies of the sources under $VERIF_MUTANTS (default /root/mut); writes survivors.txt there.
import { spawn } from 'node:child_process';
import { appendFileSync, cpSync, existsSync, mkdirSync, readdirSync, readFileSync, rmSync, symlinkSync, writeFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import { join } from 'node:path';
import { cfgText, explore } from '../lib/tlc.mjs';
import { cover } from '../lib/paths.mjs';
import { CHECKS } from '../lib/checks.mjs';

const ROOT = new URL('..', import.meta.url).pathname.replace(/\/$/, '');
const REPO = process.env.VERIF_REPO ?? '/repo';
const OUT = process.env.VERIF_MUTANTS ?? '/root/mut';
const require = createRequire('/repo/packages/vlossom/package.json');
const ts = require('typescript');
const VITEST = '/repo/packages/vlossom/node_modules/vitest/vitest.mjs';
const arg = (name, other) => (process.argv.includes(name) ? process.argv[process.argv.indexOf(name) + 1] : other);
const BUDGET = Number(arg('--seconds', 20)) * 1000;
const workers = Number(arg('--workers', 4));
const filter = arg('--files', '');
const ids = process.argv.slice(2).filter((a) => /^P\d\d$/.test(a));
const props = readFileSync(join(ROOT, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l)).filter((p) => ids.includes(p.id));

const SWAPS = { '===': '!==', '!==': '===', '&&': '||', '||': '&&', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '+': '-', '-': '+', '??': '||' };
const CALLS = { push: 'unshift', unshift: 'push', pop: 'shift', some: 'every', every: 'some', min: 'max', max: 'min', floor: 'ceil', ceil: 'floor', find: 'findLast', findIndex: 'findLastIndex', indexOf: 'lastIndexOf', startsWith: 'includes', endsWith: 'includes', add: 'has', delete: 'has', at: 'indexOf' };

/** Small changes of one file: [start, end, replacement]. */
function mutantsOf(path) {
    const text = readFileSync(path, 'utf8');
    let code = text;
    if (path.endsWith('.vue')) {
        const m = /<script[^>]*>/.exec(text);
        const from = m.index + m[0].length;
        const to = text.indexOf('</script>');
        code = ' '.repeat(from) + text.slice(from, to);
        // keep line numbers
        code = [...text.slice(0, from)].map((c) => (c === '\n' ? '\n' : ' ')).join('') + text.slice(from, to);
    }
    const sf = ts.createSourceFile('x.ts', code, ts.ScriptTarget.Latest, true);
    const out = [];
    const put = (node, replacement) => out.push([node.getStart(sf), node.getEnd(), replacement]);
    const visit = (n) => {
        if (ts.isImportDeclaration(n) || ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
        if (ts.isBinaryExpression(n)) {
            const op = n.operatorToken.getText(sf);
            if (SWAPS[op] && !(op === '+' && /['"`]/.test(n.getText(sf)))) put(n.operatorToken, SWAPS[op]);
        } else if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken) {
            put(n, `(${n.operand.getText(sf)})`);
        } else if (ts.isIfStatement(n)) {
            put(n.expression, 'true');
            put(n.expression, 'false');
        } else if (ts.isConditionalExpression(n)) {
            put(n.condition, `!(${n.condition.getText(sf)})`);
        } else if (n.kind === ts.SyntaxKind.TrueKeyword) put(n, 'false');
        else if (n.kind === ts.SyntaxKind.FalseKeyword) put(n, 'true');
        else if (ts.isExpressionStatement(n) && !ts.isStringLiteral(n.expression)) put(n, ';');
        else if (ts.isNumericLiteral(n)) put(n, String(Number(n.text) + 1));
        else if (ts.isAwaitExpression(n)) put(n, `(${n.expression.getText(sf)})`);
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && CALLS[n.expression.name.text]) put(n.expression.name, CALLS[n.expression.name.text]);
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'filter' && n.arguments.length === 1)
            out.push([n.expression.expression.getEnd(), n.getEnd(), '']);
        ts.forEachChild(n, visit);
    };
    visit(sf);
    return out.map(([a, b, r]) => ({ a, b, r, line: text.slice(0, a).split('\n').length, was: text.slice(a, b), text }));
}

/** Explores and writes the walks of every job once. */
async function prepare() {
    const jobs = {};
    for (const p of props) {
        jobs[p.id] = [];
        for (const job of CHECKS[p.id].jobs) {
            if (job.tiers && !job.tiers.includes('quick')) continue;
            const name = job.name ?? job.module;
            const file = join(OUT, 'walks', `${p.id}-${name}.json`);
            mkdirSync(join(OUT, 'walks'), { recursive: true });
            const graph = await explore({ specDir: join(ROOT, 'specs'), module: job.module, cfg: cfgText(job), workDir: join(OUT, 'tlc', p.id, name), heapMb: job.heapMb });
            const walks = cover(graph, { maxLen: job.maxLen ?? 40, seed: 1, random: job.random ?? 50, randomLen: job.randomLen ?? 60 });
            // in no particular order, since only as many are replayed as the time allows
            let x = 12345;
            for (let i = walks.length - 1; i > 0; i--) {
                x = (x * 1103515245 + 12345) % 2147483648;
                const j = x % (i + 1);
                [walks[i], walks[j]] = [walks[j], walks[i]];
            }
            writeFileSync(file, JSON.stringify({
                obs: graph.nodes.map((n) => n.obs),
                cfg: Object.fromEntries([...new Set(walks.map((w) => w.init))].map((i) => [i, graph.nodes[i].cfg])),
                acts: graph.acts,
                walks: walks.map((w) => ({ init: w.init, steps: w.edges.map((e) => [graph.edges[e][1], graph.edges[e][2]]) })),
            }));
            jobs[p.id].push({ name, job, file });
        }
    }
    return jobs;
}

function sandbox(w) {
    const dir = join(OUT, `repo${w}`);
    rmSync(dir, { recursive: true, force: true });
    for (const pkg of ['vlossom', 'vlossom-mcp']) {
        mkdirSync(join(dir, 'packages', pkg), { recursive: true });
        const from = join(REPO, 'packages', pkg);
        cpSync(join(from, 'src'), join(dir, 'packages', pkg, 'src'), { recursive: true });
        for (const f of readdirSync(from)) if (f.endsWith('.json')) cpSync(join(from, f), join(dir, 'packages', pkg, f));
        symlinkSync(`/repo/packages/${pkg}/node_modules`, join(dir, 'packages', pkg, 'node_modules'));
    }
    return dir;
}

function replay(dir, w, { job, file }) {
    return new Promise((resolve) => {
        const out = join(OUT, `out${w}.json`);
        const jobFile = join(OUT, `job${w}.json`);
        rmSync(out, { force: true });
        writeFileSync(jobFile, JSON.stringify({ adapter: job.adapter, walks: file, shard: 0, shards: 1, out, at: join(OUT, `at${w}`), budgetMs: BUDGET, stopAfter: 1, keys: job.keys, options: job.options }));
        const child = spawn('node', [VITEST, 'run', '--config', join(ROOT, 'harness/vitest.config.mjs')], {
            cwd: join(ROOT, 'harness'), stdio: 'ignore', detached: true,
            env: { ...process.env, VERIF_REPO: dir, VERIF_JOB: jobFile, VERIF_CACHE: join(OUT, `vite${w}`), TZ: 'UTC', CI: '1', NO_COLOR: '1' },
        });
        const timer = setTimeout(() => { try { process.kill(-child.pid, 'SIGKILL'); } catch { /* ended */ } }, BUDGET + 60000);
        child.on('close', () => {
            clearTimeout(timer);
            if (!existsSync(out)) return resolve(true);
            resolve(JSON.parse(readFileSync(out, 'utf8')).mismatches.length > 0);
        });
    });
}

const jobs = await prepare();
const queue = [];
for (const f of new Set(props.flatMap((p) => p.anchors.files))) {
    if (!f.includes(filter) || !/\.(ts|vue)$/.test(f)) continue;
    const of = props.filter((p) => p.anchors.files.includes(f)).map((p) => p.id);
    for (const m of mutantsOf(join(REPO, f))) queue.push({ f, of, ...m });
}
console.log(`${queue.length} mutants`);
const first = sandbox(0);
for (const id of Object.keys(jobs)) for (const j of jobs[id]) if (await replay(first, 0, j)) throw new Error(`${id} ${j.name} is not quiet on the unchanged code`);
let done = 0;
const survivors = [];
await Promise.all(Array.from({ length: workers }, async (_, w) => {
    const dir = sandbox(w);
    for (let m = queue.shift(); m; m = queue.shift()) {
        const path = join(dir, m.f);
        writeFileSync(path, m.text.slice(0, m.a) + m.r + m.text.slice(m.b));
        let caught = false;
        for (const id of m.of) {
            for (const j of jobs[id]) if ((caught = await replay(dir, w, j))) break;
            if (caught) break;
        }
        writeFileSync(path, m.text);
        done++;
        if (!caught) {
            const s = `${m.f.split('/').pop()}:${m.line} [${m.of}] ${m.was.replace(/\s+/g, ' ').slice(0, 90)} -> ${m.r.slice(0, 90)}`;
            survivors.push(s);
            appendFileSync(join(OUT, 'survivors.txt'), s + '\n');
        }
        if (done % 20 === 0) console.log(`${done} done, ${queue.length} left, ${survivors.length} unnoticed`);
    }
}));
console.log(`${done} done, ${survivors.length} unnoticed`);
