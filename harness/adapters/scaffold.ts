import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { componentsOf, stubNetwork } from '#h/mcp/repo';

const TEXTS: Record<string, string> = { plain: 'two components', empty: '   ', arrow: 'from --> to <b> ---> there', long: 'x'.repeat(100) };
const table = (head: string[], ...rows: string[][]) => [head, head.map(() => '---'), ...rows].map((r) => `| ${r.join(' | ')} |`).join('\n');
const PROPS = ['Prop', 'Type', 'Default', 'Required', 'Description'];

/** One component that is bound and has no content, and one for a later version. */
function readme(path: string, ref: string): string | undefined {
    if (!componentsOf(ref).some((name) => path.endsWith(`/${name}/README.md`))) return undefined;
    if (path.endsWith('/vs-gamma/README.md'))
        return `# VsGamma\n\nGamma\n\n**Available Version**: 2.1.0+\n\n## Props\n\n${table(PROPS, ['`modelValue`', '`string`', "`''`", '', 'value'], ['`itemKey`', '`string`', '-', 'Yes', 'key'])}\n\n## Events\n\n${table(['Event', 'Payload', 'Description'], ['`update:modelValue`', '`string`', 'value'])}\n`;
    if (path.endsWith('/vs-beta/README.md')) return `# VsBeta\n\nBeta\n\n**Available Version**: 2.9.0+\n\n## Props\n\n${table(PROPS, ['`size`', '`string`', '-', '', 'size'])}\n`;
}

const CONTEXT: Record<string, any> = {
    none: {},
    old: { version: '2.1.0' },
    new: { version: '2.2.0' },
    package: { packageJson: JSON.stringify({ dependencies: { vue: '^3.4.0', vlossom: '^2.2.0' } }) },
    dev: { packageJson: JSON.stringify({ devDependencies: { vlossom: '~2.1.0' } }) },
    both: { version: '2.1.0', packageJson: JSON.stringify({ dependencies: { vlossom: '^2.2.0' } }) },
    foreign: { packageJson: JSON.stringify({ dependencies: { vue: '^3.4.0' } }) },
    broken: { packageJson: '{ "dependencies": ' },
};

export default function create(): Adapter {
    let scaffold: any;
    let validate: any;

    const refused = (r: any) => ({
        status: r.status,
        unknown: r.unknownComponents ?? [],
        late: (r.unsupportedComponents ?? []).map((u: any) => u.name),
        code: !!r.code,
    });
    const version = (project: string) => ({ old: '2.1.0', new: '2.2.0', package: '2.2.0', dev: '2.1.0', both: '2.1.0' })[project];

    return {
        async start() {
            stubNetwork(undefined, readme);
            vi.resetModules();
            scaffold = (await import('#mcp/internal/scaffold/scaffold-service')).scaffoldVlossomCode;
            validate = (await import('#mcp/internal/validation/validate-vlossom-usage')).validateVlossomUsage;
        },
        async step(a) {
            const context = CONTEXT[a.project];
            if (a.op === 'usage') {
                const r = await scaffold({
                    kind: 'component-usage',
                    description: TEXTS[a.text],
                    components: a.ids.map((id: string) => `vs-${id}`),
                    context: { ...context, typescript: a.typed ? undefined : false },
                    output: { format: a.format },
                });
                if (r.status !== 'ok') return refused(r);
                const code = r.code.replace(/^```vue\n([^]*)\n```$/, '$1');
                const [, title, body] = code.match(/<template>\s*<!-- ([^]*?) -->\s*<div>([^]*)<\/div>\s*<\/template>/) ?? [];
                const imports = (from: string) => (code.match(new RegExp(`import \\{ (.*) \\} from '${from}'`))?.[1] ?? '').split(', ').filter(Boolean);
                const v = await validate({ kind: 'sfc', code, context: { version: version(a.project) } });
                return {
                    status: r.status,
                    title: title === `${'x'.repeat(79)}...` ? '79 and ...' : title,
                    tags: body.trim().split(/\n\s*/),
                    names: imports('vlossom'),
                    ref: imports('vue').includes('ref') && /const modelValue = ref\(/.test(code),
                    typed: /<script setup lang="ts">/.test(code),
                    fenced: code !== r.code,
                    valid: v.valid || v.issues.map((i: any) => i.message),
                };
            }
            if (a.op === 'style') {
                const r = await scaffold({ kind: 'style-set', description: '', component: `vs-${a.id}`, context });
                if (r.status !== 'ok') return refused(r);
                const v = await validate({ kind: 'style-set', code: r.code, context: { version: version(a.project), components: [`vs-${a.id}`] } });
                return { status: r.status, valid: v.valid };
            }
            const r = await scaffold({ kind: 'project-setup', description: 'shop', context: { ...context, framework: a.framework === '-' ? undefined : a.framework } });
            if (r.status !== 'ok') return refused(r);
            const [file, ...more] = r.scaffold.files;
            const v = await validate(r.validationPayload);
            return {
                status: r.status,
                at: file.path,
                same: more.length === 0 && JSON.stringify(r.validationPayload.files) === JSON.stringify(r.scaffold.files),
                mounts: /\.mount\('#app'\)/.test(file.content),
                valid: v.valid && v.issues.length === 0,
            };
        },
        observe() {
            return { up: true };
        },
        stop() {
            vi.unstubAllGlobals();
        },
    };
}
