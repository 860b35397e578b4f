// Source of /verif/MANIFEST.json: `node tools/manifest.mjs > MANIFEST.json`.
import { readFileSync } from 'node:fs';
import { CHECKS } from '../lib/checks.mjs';

const props = readFileSync(new URL('../properties.jsonl', import.meta.url), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const claimed = props.filter((p) => CHECKS[p.id]);
const note = (c) => {
    const models = [...new Set(c.jobs.map((j) => `specs/${j.module}.tla`))].join(', ');
    return (
        `TLC explores ${models} exhaustively for the listed constants and checks its formulas; every transition of that ` +
        'state graph (plus seeded random walks) is replayed on the code of /repo and compared after each step. ' +
        (c.note ?? 'Exact within those bounds; trusts jsdom, Vue and the adapter\'s projection.')
    );
};
const manifest = {
    version: 1,
    setup_cmd: 'bash bin/setup.sh',
    checks: claimed.map((p) => ({
        property: p.id,
        quick_cmd: `node bin/check.mjs ${p.id}`,
        thorough_cmd: `node bin/check.mjs ${p.id} --thorough`,
        technique: 'TLA+ specification explored by TLC; every transition replayed on the real code',
        level: 'model_checking',
        level_note: note(CHECKS[p.id]),
    })),
    not_applicable: props
        .filter((p) => !CHECKS[p.id])
        .map((p) => ({ property: p.id, reason: 'Not claimed yet: its specification and adapter are still being written.' })),
    notes: 'No hooks in /repo: everything is observed through exported functions, component props, events and rendered DOM.',
};
process.stdout.write(JSON.stringify(manifest, null, 1) + '\n');
