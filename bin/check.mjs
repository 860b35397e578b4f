#!/usr/bin/env node
import { readFileSync } from 'node:fs';
import { check } from '../lib/check.mjs';
import { CHECKS } from '../lib/checks.mjs';

const id = process.argv[2];
const tier = process.argv.includes('--thorough') || process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;
if (!CHECKS[id]) {
    console.error(`unknown property ${id}`);
    process.exit(2);
}
const file = process.argv[process.argv.indexOf('--replay') + 1];
const only = process.argv.includes('--replay') ? JSON.parse(readFileSync(file, 'utf8')) : null;
process.exit(await check(id, CHECKS[id], only ? { tier: only.tier, seed: only.seed, only } : { tier, seed }));
