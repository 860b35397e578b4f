import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { stubNetwork, toolServer } from '#h/mcp/repo';

const MINUTE = 60_000;
const UNIT = 14 * MINUTE; // the default limit of 30 minutes lies between two and three units

export default function create(): Adapter {
    let now = 0;
    let dur = 0;
    let spent = false;
    let tools: ReturnType<typeof toolServer>['tools'] = {};
    const pass = (ms: number) => vi.setSystemTime((now += ms));
    // a call spends its time when it first looks at its input
    const slow = {
        get version() {
            if (!spent) pass(dur);
            spent = true;
            return undefined;
        },
    };
    const input = (tool: string): any => {
        switch (tool) {
            case 'search_vlossom':
                return Object.defineProperties({ query: 'prefer', target: 'rule' }, Object.getOwnPropertyDescriptors(slow));
            case 'get_vlossom_reference':
                return Object.defineProperties({ type: 'rule' }, Object.getOwnPropertyDescriptors(slow));
            case 'scaffold_vlossom_code':
                return { kind: 'component-usage', description: 'a form', components: [], context: slow };
            default:
                return { kind: 'snippet', code: '', context: slow };
        }
    };
    const names = ['search_vlossom', 'scaffold_vlossom_code', 'get_vlossom_reference', 'validate_vlossom_usage'];

    return {
        async start(c) {
            vi.useFakeTimers({ toFake: ['Date'] });
            now = 1_000_000_000_000;
            pass(0);
            vi.resetModules();
            stubNetwork();
            const server: any = toolServer();
            (await import('#mcp/tools/search-vlossom')).registerSearchVlossom(server);
            (await import('#mcp/tools/scaffold-vlossom-code')).registerScaffoldVlossomCode(server);
            (await import('#mcp/tools/get-vlossom-reference')).registerGetVlossomReference(server);
            (await import('#mcp/tools/validate-vlossom-usage')).registerValidateVlossomUsage(server);
            const { setSessionTimeoutMs } = await import('#mcp/utils/mcp-response');
            if (c.limit !== 2) setSessionTimeoutMs(c.limit > 9 ? Infinity : c.limit * UNIT + MINUTE);
            tools = server.tools;
        },
        async step(a) {
            if (a.op === 'wait') {
                pass(UNIT);
                return;
            }
            dur = a.dur;
            spent = false;
            const { _meta, content } = await tools[a.tool](input(a.tool));
            if (JSON.stringify(JSON.parse(content[0].text)._meta) !== JSON.stringify(_meta)) return 'the two copies of the trace differ';
            const used: Record<string, number> = Object.fromEntries(names.map((n) => [n, 0]));
            for (const t of _meta.toolsUsed) {
                const [, name, n] = t.match(/^(\w+)(?: ×(\d+))?$/)!;
                used[name] += n ? Number(n) : 1;
            }
            return {
                steps: _meta.steps.map((s: any) => [s.step, s.tool, s.parentStep ?? 0, s.durationMs]),
                used,
                total: _meta.totalDurationMs,
            };
        },
        observe: () => ({ quiet: true }),
        stop() {
            vi.unstubAllGlobals();
            vi.useRealTimers();
        },
    };
}
