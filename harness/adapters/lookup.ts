import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { stubNetwork } from '#h/mcp/repo';
import { getVlossomReference } from '#mcp/internal/reference/reference-service';
import { scaffoldVlossomCode } from '#mcp/internal/scaffold/scaffold-service';
import { searchVlossom } from '#mcp/internal/search/component-search-service';
import { validateVlossomUsage } from '#mcp/internal/validation/validate-vlossom-usage';
import { registerCoreResources } from '#mcp/resources/core-resources';

const TEXTS: Record<string, string> = { plain: 'two components', arrow: 'from --> to <b> ---> there' };

/** The resources the server serves, by address or template. */
function served(): ((uri: string) => Promise<boolean>)[] {
    const all: ((uri: string) => Promise<boolean>)[] = [];
    const has = (r: any) => r?.contents?.length > 0 && r.contents.every((c: any) => c.text);
    registerCoreResources({
        registerResource(_: string, at: any, __: unknown, read: any) {
            if (typeof at === 'string') all.push(async (uri) => uri === at && has(await read(new URL(uri))));
            else
                all.push(async (uri) => {
                    const variables = at.uriTemplate.match(uri);
                    return !!variables && has(await read(new URL(uri), variables));
                });
        },
    } as any);
    return all;
}

export default function create(): Adapter {
    let ver = '';
    const known = new Map<string, boolean>();
    let resources: ReturnType<typeof served> = [];

    /** Reads every resource an answer names. */
    async function uris(answer: unknown): Promise<string> {
        for (const uri of new Set(JSON.stringify(answer).match(/vlossom:\/\/[^"\s]*/g) ?? [])) {
            if (!known.has(uri)) known.set(uri, (await Promise.all(resources.map((r) => r(uri)))).some(Boolean));
            if (!known.get(uri)) return `${uri} is not served`;
        }
        return 'served';
    }

    return {
        async start(_, o) {
            stubNetwork();
            resources = served();
            ver = o.ver;
        },
        async step(a) {
            if (a.op === 'version') ver = a.to;
            else if (a.op === 'search') {
                const r = await searchVlossom({ target: a.kind, query: a.query, limit: a.limit, version: ver });
                const results = r.results.map((x) => [x.type, x.id]);
                if (r.total !== (r.choices ? r.choices.reduce((n, c) => n + c.count, 0) : results.length)) return { total: r.total };
                return { status: r.status, results, choices: (r.choices ?? []).map((c) => [c.target, c.count]), uris: await uris(r) };
            } else if (a.op === 'follow') {
                const r = await getVlossomReference({ type: a.kind, id: a.id, version: ver });
                return { found: r.found && r.status === 'ok' && !!r.reference, id: r.id, uris: await uris(r) };
            } else if (a.op === 'scaffold') {
                const r = await scaffoldVlossomCode({ kind: 'component-usage', description: TEXTS[a.text], components: a.ids, context: { version: ver } });
                if (r.status !== 'ok') return r.code ? 'error with code' : r.status;
                const v = await validateVlossomUsage({ kind: 'sfc', code: r.code, context: { version: ver } } as any);
                const template = r.code.slice(r.code.indexOf('<template>'), r.code.indexOf('</template>')).replace(/<!--[^]*?-->/g, '');
                if (template.replace(/<[^>]*>/g, '').trim() || /<b>/.test(template)) return `stray text ${template}`;
                return v.valid ? 'valid' : `invalid ${JSON.stringify((v as any).issues ?? v)}`;
            }
        },
        observe() {
            return { ver };
        },
        stop() {
            vi.unstubAllGlobals();
        },
    };
}
