// Confirms planted bugs: `node tools/plant.mjs [--no-tests] [--no-check] <id>...`
// Everything runs on a scratch copy of the repository; /repo itself is left alone.
import { spawnSync, spawn } from 'node:child_process';
import { existsSync, readFileSync, rmSync } from 'node:fs';

const ids = process.argv.slice(2).filter((a) => !a.startsWith('--'));
const opt = (o) => process.argv.includes(o);
const WT = '/tmp/plant-repo';
const FROM = process.env.VERIF_REPO ?? '/repo';
const sh = (cmd, cwd) => {
    const r = spawnSync('bash', ['-c', cmd], { cwd, encoding: 'utf8', maxBuffer: 1 << 28 });
    return { code: r.status, out: r.stdout + r.stderr };
};
const psh = (cmd, cwd) =>
    new Promise((res) => {
        const c = spawn('bash', ['-c', cmd], { cwd });
        let out = '';
        c.stdout.on('data', (d) => (out += d));
        c.stderr.on('data', (d) => (out += d));
        c.on('close', (code) => res({ code, out }));
    });
const must = (r, what) => {
    if (r.code !== 0) {
        console.error(`${what} failed:\n${r.out.slice(-2000)}`);
        process.exit(1);
    }
};
// Packages are shared with /repo: a second copy of vue would not work together with the first.
if (!existsSync(WT))
    must(
        sh(
            `cp -a ${FROM} ${WT} && for p in vlossom vlossom-mcp; do rm -rf ${WT}/packages/$p/node_modules; ` +
                `ln -s /repo/packages/$p/node_modules ${WT}/packages/$p/node_modules; done; echo node_modules >> ${WT}/.git/info/exclude`,
        ),
        'copy',
    );
must(sh(`git fetch -q ${FROM} HEAD && git reset -q --hard FETCH_HEAD`, WT), 'sync');
const MCP_TESTS = `node --import tsx --test --experimental-test-isolation=none test/*.test.ts | grep '^ok' | sed 's/^ok [0-9]* - //' | sort`;
sh(`${MCP_TESTS} > /tmp/plant-mcp-passing`, `${WT}/packages/vlossom-mcp`);
for (const id of ids) {
    const dir = new URL(`../seeded/${id}`, import.meta.url).pathname;
    const meta = JSON.parse(readFileSync(`${dir}/meta.json`, 'utf8'));
    const res = {};
    const clean = sh(`bash ${dir}/demo.sh`, WT);
    res.demoClean = clean.code === 0 ? 'ok' : 'FAILS ON CLEAN TREE\n' + clean.out.slice(-3000);
    must(sh(`git apply ${dir}/patch.diff`, WT), `${id} apply`);
    try {
        const bugged = sh(`bash ${dir}/demo.sh`, WT);
        res.demoBug = bugged.code !== 0 ? 'ok' : 'DEMO PASSES WITH BUG';
        if (!opt('--no-tests')) {
            const mcp = readFileSync(`${dir}/patch.diff`, 'utf8').includes('packages/vlossom-mcp/');
            const jobs = mcp
                ? [
                      psh('node_modules/.bin/tsc --noEmit -p .', `${WT}/packages/vlossom-mcp`),
                      // most of these tests need the network: compare what passes with the unchanged tree
                      psh(`${MCP_TESTS} | diff /tmp/plant-mcp-passing -`, `${WT}/packages/vlossom-mcp`),
                  ]
                : [
                      psh('node_modules/.bin/vue-tsc --build --force', `${WT}/packages/vlossom`),
                      psh('node_modules/.bin/vitest run --testTimeout=20000 --hookTimeout=30000', `${WT}/packages/vlossom`),
                  ];
            const rs = await Promise.all(jobs);
            res.tests = rs.every((r) => r.code === 0) ? 'ok' : 'TESTS/BUILD FAIL\n' + rs.filter((r) => r.code !== 0).map((r) => r.out.slice(-2500)).join('\n');
        }
    } finally {
        sh('git checkout -q -- . && git clean -fdq', WT);
    }
    if (!opt('--no-check')) {
        must(sh(`git apply ${dir}/patch.diff`, WT), `${id} apply`);
        try {
            const r = sh(`VERIF_REPO=${WT} node bin/check.mjs ${meta.property}`, new URL('..', import.meta.url).pathname);
            res.check = r.code === 1 ? 'caught' : `MISSED (exit ${r.code})\n` + r.out.slice(-1500);
            if (r.code === 1) res.how = r.out.split('\n').slice(0, 5).join('\n').slice(0, 1200);
        } finally {
            sh('git checkout -q -- .', WT);
        }
    }
    console.log(`== ${id} ${meta.property}: ` + Object.entries(res).map(([k, v]) => `${k}=${v}`).join(' | '));
}
