import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { stubNetwork } from '#h/mcp/repo';
import { validateVlossomUsage } from '#mcp/internal/validation/validate-vlossom-usage';

const rows = (head: string, names: string[], cells: (n: string) => string) =>
    names.length ? `## ${head}s\n\n| ${head} | Type | Required |\n| --- | --- | --- |\n${names.map((n) => `| \`${n}\` | ${cells(n)} |`).join('\n')}\n\n` : '';
const doc = (name: string, since: string, props: string[], required: string[], events: string[], slots: string[]) =>
    `# ${name}\n\nAbout ${name}\n\n**Available Version**: ${since}+\n\n${rows('Prop', props, (p) => `\`string\` | ${required.includes(p) ? 'Yes' : '-'}`)}${rows('Event', events, () => ' | ')}${rows('Slot', slots, () => ' | ')}`;

const DOCS: Record<string, string> = {
    'vs-field': doc('VsField', '2.1.0', ['modelValue', 'label', 'size'], ['label'], ['update:modelValue', 'pickDone'], ['default', 'head']),
    'vs-plain': doc('VsPlain', '2.0.0', ['title'], [], [], ['default', 'cell-[key]']),
    'vs-newer': doc('VsNewer', '2.2.0', ['size'], [], ['pickDone'], []),
};

export default function create(): Adapter {
    let args: any;
    let seen: any;
    return {
        async start(c) {
            args = c;
            stubNetwork(
                () => undefined,
                (path) => DOCS[path.match(/components\/([a-z-]+)\/README\.md$/)?.[1] ?? ''],
            );
            seen = await check();
        },
        async step() {
            seen = await check();
        },
        observe: () => seen,
        stop() {
            vi.unstubAllGlobals();
        },
    };
    async function check() {
        const result = await validateVlossomUsage({
            kind: 'sfc',
            code: args.lines.join('\n'),
            context: { version: args.version === '-' ? undefined : args.version, vlossomFirst: 'off' },
        });
        const issues: Record<string, number> = {};
        for (const i of result.issues) {
            const label = `${i.line ?? 0} ${i.ruleId}`;
            issues[label] = (issues[label] ?? 0) + 1;
        }
        if (result.valid !== (result.status === 'ok')) issues[`status ${result.status}`] = 1;
        return { issues: Object.keys(issues).length ? issues : [], valid: result.valid };
    }
}
