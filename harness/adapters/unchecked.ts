import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { stubNetwork } from '#h/mcp/repo';

const setup = `import { createVlossom, VlossomComponents } from 'vlossom';\nimport 'vlossom/styles';\napp.use(createVlossom({ components: VlossomComponents }));\n`;
const deps = (...names: string[]) => JSON.stringify({ dependencies: Object.fromEntries(names.map((n) => [n, n === 'vlossom' ? '^2.1.0' : '*'])) });
const style = (key: string) => `const s: VsAlphaStyleSet = {\n  variables: {\n    ${key}: 'var(--vs-one)',\n  },\n}`;

function input(kind: string, code: string): any {
    const context = { version: '2.1.0' };
    if (kind === 'project-setup') {
        if (code === 'empty') return { kind };
        if (code === 'blank') return { kind, packageJson: '', files: [], context };
        const file = { path: 'src/main.ts', content: setup };
        return { kind, packageJson: code === 'good' ? deps('vlossom', 'vue', 'tailwindcss') : deps('vlossom', 'vue'), files: [file] };
    }
    if (code === 'empty') return { kind, context };
    if (code === 'blank') return { kind, code: ' \n', context };
    if (kind === 'style-set') return { kind, code: style(code === 'good' ? 'color' : 'colour'), context };
    return { kind, code: `<vs-alpha label="a"${code === 'good' ? '' : ' wrong'} />`, context };
}

export default function create(): Adapter {
    let net = { down: [] as string[], mode: '' };
    let validate: any;
    return {
        async start() {
            net = { down: [], mode: '' };
            stubNetwork((kind) => (net.down.includes(kind) ? net.mode : undefined));
            vi.resetModules();
            validate = (await import('#mcp/internal/validation/validate-vlossom-usage')).validateVlossomUsage;
        },
        async step(a) {
            if (a.op === 'net') {
                net = { down: a.down, mode: a.mode };
                return;
            }
            const r = await validate(input(a.kind, a.code));
            return { valid: r.valid, checked: r.status !== 'skipped' };
        },
        observe: () => ({ quiet: true }),
        stop() {
            vi.unstubAllGlobals();
        },
    };
}
