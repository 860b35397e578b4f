import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { componentsOf, stubNetwork } from '#h/mcp/repo';

// how each version is asked for, and what the answer has to say about it
const VERSIONS: Record<string, { ask: any; ref: string; detected?: string; source: string; range?: string; fallback?: boolean }> = {
    A: { ask: { version: '2.1.0' }, ref: 'vlossom-v2.1.0', detected: '2.1.0', source: 'input' },
    Am: { ask: { packageJson: JSON.stringify({ dependencies: { vlossom: '^2.1.0' } }) }, ref: 'vlossom-v2.1.0', detected: '2.1.0', source: 'packageJson', range: '^2.1.0' },
    B: { ask: { version: '2.2.0' }, ref: 'v2.2.0', detected: '2.2.0', source: 'input' },
    N: { ask: {}, ref: 'main', source: 'unknown' },
    L: { ask: { packageJson: JSON.stringify({ dependencies: { vlossom: 'latest' } }) }, ref: 'main', source: 'packageJson', range: 'latest' },
    X: { ask: { version: '9.9.9' }, ref: 'main', detected: '9.9.9', source: 'input', fallback: true },
};

const pascal = (s: string) => s.split('-').map((p) => p[0].toUpperCase() + p.slice(1)).join('');
const same = (a: unknown, b: unknown) => JSON.stringify(a) === JSON.stringify(b);

export default function create(): Adapter {
    let net = { down: [] as string[], mode: '' };
    let m: Record<string, any> = {};

    /** '' when the answer is complete and right, 'error' when it reports a failure, else what is wrong. */
    function judge(kind: string, v: string, r: any): string {
        const want = VERSIONS[v];
        const names = componentsOf(want.ref);
        const of = (n: string) => `${n} of ${want.ref}`;
        if (kind === 'all') {
            const list = r as any[];
            return same(list.map((c) => [c.name, c.description, c.props.length, Object.keys(c.styleSet.variables)]), names.map((n) => [pascal(n), of(n), 1, ['color']])) ? '' : `components ${JSON.stringify(list.map((c) => c.name))}`;
        }
        const ctx = r.versionContext ?? {};
        const about = [ctx.source, ctx.requestedVersion, ctx.packageVersionRange, ctx.detectedVersion];
        const wantAbout = [want.source, want.source === 'input' ? want.ask.version : undefined, want.range, want.detected];
        if (!same(about, wantAbout)) return `answer is about ${JSON.stringify(about)}`;
        const failed = r.status === 'error' && !ctx.resolvedRef;
        if (failed) return 'error';
        // nothing is scaffolded for a project that does not use the library
        if (kind === 'scaffold' && v === 'N') return r.status === 'skipped' && !r.code ? '' : `scaffold ${JSON.stringify(r)}`;
        if (ctx.resolvedRef !== want.ref || (ctx.fallbackRef ?? '') !== (want.fallback ? 'main' : '')) return `taken from ${ctx.resolvedRef}`;
        const unsure = want.fallback || !want.detected;
        if (ctx.warnings.length !== (unsure ? 1 : 0)) return `warnings ${JSON.stringify(ctx.warnings)}`;
        const ref = r.reference;
        switch (kind) {
            case 'component':
                return r.found && ref.summary.description === of('vs-alpha') && same(ref.api.props.map((p: any) => [p.name, p.required, p.description]), [['label', true, `label in ${want.ref}`]]) && same(ref.api.styleSet.variables, { color: 'string' }) && ref.api.events.length === 1 && ref.api.slots.length === 1 && ref.api.methods.length === 1 ? '' : `component ${JSON.stringify(r)}`;
            case 'missing':
                return r.status === 'error' && !r.found && /VsNowhere/.test(r.message) ? '' : `missing ${JSON.stringify(r)}`;
            case 'source':
                if (ref.source.missing && ref.source.message) return 'error';
                return ref.source.source === `<template>${of('vs-alpha')}</template>` && ref.source.ref === want.ref ? '' : `source ${JSON.stringify(ref.source)}`;
            case 'search':
                return same(r.results.map((x: any) => x.name), names.map(pascal)) ? '' : `results ${JSON.stringify(r.results.map((x: any) => x.name))}`;
            case 'directive':
                return same(ref.directives.map((d: any) => [d.name, d.description, d.options.length]), [['v-one', of('vs-one'), 1], ['v-two', of('vs-two'), 1]]) ? '' : `directives ${JSON.stringify(ref.directives)}`;
            case 'composable':
                return same(ref.composables.map((c: any) => [c.name, c.description, c.isPublic, c.args.length]), [['useOneThing', of('one-thing'), true, 1], ['useOtherThing', of('other-thing'), false, 1]]) ? '' : `composables ${JSON.stringify(ref.composables)}`;
            case 'option':
                if (!same(ref.plugins.map((p: any) => [p.property, p.description, p.methods.map((x: any) => x.name)]), [['one', of('one-plugin'), ['open(a)']], ['two', of('two-plugin'), ['open(a)']]])) return `plugins ${JSON.stringify(ref.plugins)}`;
                // the documented stand-in for an unreachable setup example
                if (/VlossomComponents/.test(ref.fullExample)) return 'error';
                return ref.fullExample === `setup(${want.ref})` ? '' : `example ${ref.fullExample}`;
            case 'token':
                return same(ref.tokens.map((t: any) => [t.name, t.defaultValue, t.darkValue]), [['--vs-comp-bg', 'white', 'black'], ['--vs-one', want.ref, undefined], ['--vs-red-500', 'red', undefined]]) ? '' : `tokens ${JSON.stringify(ref.tokens)}`;
            case 'changelog':
                return same([ref.latestStable, ref.latestPrerelease, ref.versions.map((e: any) => e.version)], ['2.10.0', '2.11.0-beta.1', ['2.11.0-beta.1', '2.10.0', '2.2.0', '2.1.0']]) ? '' : `changelog ${JSON.stringify(ref)}`;
            case 'scaffold':
                return r.status === 'ok' && /<vs-alpha :label="label">/.test(r.code) ? '' : `scaffold ${JSON.stringify(r)}`;
            case 'validate':
                return same([r.status, r.valid, r.issues.map((i: any) => i.ruleId)], ['error', false, ['PROP_EXISTS']]) ? '' : `validation ${JSON.stringify(r)}`;
            case 'searchall':
                return same(r.results.map((x: any) => x.name).filter((n: string) => /^(Vs|v-|use|--)/.test(n)).sort(), [...names.map(pascal), 'v-one', 'v-two', 'useOneThing', 'useOtherThing', '--vs-comp-bg', '--vs-one', '--vs-red-500'].sort()) ? '' : `results ${JSON.stringify(r.results.map((x: any) => x.name))}`;
        }
        return `no judge for ${kind}`;
    }

    async function ask(kind: string, v: string): Promise<any> {
        const { ask: by } = VERSIONS[v];
        const reference = (more: any) => m.reference.getVlossomReference({ ...by, ...more });
        switch (kind) {
            case 'all':
                return m.registry.getAllComponentsMeta(m.version.resolveVersionContext(by));
            case 'component':
                return reference({ type: 'component', id: 'vs-alpha', include: ['summary', 'api'] });
            case 'missing':
                return reference({ type: 'component', id: 'VsNowhere' });
            case 'source':
                return reference({ type: 'component', id: 'VsAlpha', include: ['source'] });
            case 'search':
                return m.search.searchVlossom({ ...by, target: 'component' });
            case 'searchall':
                return m.search.searchVlossom({ ...by, target: 'all', limit: 50 });
            case 'scaffold':
                return m.scaffold.scaffoldVlossomCode({ kind: 'component-usage', description: 'x', components: ['VsAlpha'], context: by });
            case 'validate':
                return m.validate.validateVlossomUsage({ kind: 'snippet', code: '<vs-alpha label="a" wrong />', packageJson: by.packageJson, context: { version: by.version } });
            default:
                return reference({ type: kind });
        }
    }

    async function answer([kind, v]: [string, string], may: boolean) {
        let verdict: string;
        try {
            verdict = judge(kind, v, await ask(kind, v));
        } catch (e) {
            verdict = kind === 'all' ? 'error' : `thrown ${e}`;
        }
        return verdict === '' || (may && verdict === 'error') ? 'right' : verdict;
    }

    return {
        async start() {
            net = { down: [], mode: '' };
            stubNetwork((kind) => (net.down.includes(kind) ? net.mode : undefined));
            vi.resetModules();
            m = {
                reference: await import('#mcp/internal/reference/reference-service'),
                registry: await import('#mcp/services/github-registry-service'),
                version: await import('#mcp/internal/version/version-service'),
                search: await import('#mcp/internal/search/component-search-service'),
                scaffold: await import('#mcp/internal/scaffold/scaffold-service'),
                validate: await import('#mcp/internal/validation/validate-vlossom-usage'),
            };
        },
        async step(a) {
            if (a.op === 'net') {
                net = { down: a.down, mode: a.mode };
                return;
            }
            return Promise.all(a.asks.map((q: [string, string]) => answer(q, a.may)));
        },
        observe: () => ({ quiet: true }),
        stop() {
            vi.unstubAllGlobals();
        },
    };
}
