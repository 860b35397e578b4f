import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { stubNetwork } from '#h/mcp/repo';
import { scaffoldStyleSet } from '#mcp/internal/scaffold/style-set-scaffolder';
import { validateVlossomUsage } from '#mcp/internal/validation/validate-vlossom-usage';

const FILES: Record<string, string> = {
    'vs-old/README.md': '# VsOld\n\nOld\n\n**Available Version**: 2.0.0+\n\n',
    'vs-new/README.md': '# VsNew\n\nNew\n\n**Available Version**: 2.2.0+\n\n',
    'vs-old/types.ts':
        'export interface VsOldStyleSet {\n    variables?: {\n        bg?: string;\n        gap?: string;\n    };\n    component?: CSSProperties;\n    icon?: VsIconStyleSet;\n}\n',
    'vs-new/types.ts':
        "import type { VsLoadingStyleSet } from '@/components/vs-loading/types';\n\nexport interface VsNewRef extends ComponentPublicInstance<typeof VsNew> {}\n\nexport interface VsNewStyleSet extends CSSProperties {\n    $content?: CSSProperties & {\n        $inner?: CSSProperties;\n    };\n    $loading?: VsLoadingStyleSet;\n}\n",
};

const BLOCK = ['varOk', 'varCss', 'varBad', 'varSame'];
const ORDER = ['css', 'part', 'child', 'own', 'wrongPart', 'wrongObject', 'typed', 'quoted', 'comment', 'colour', 'foreign', 'clear', 'remark'];
const TEXT: Record<string, string> = {
    varOk: "bg: 'var(--vs-one)',",
    varCss: "width: '1rem',",
    varBad: "shade: 'a: { b, c }',",
    varSame: "variables: { bg: '' },",
    css: "borderRadius: `var(--vs-${size}, 1rem)`,",
    part: "$content: { color: 'var(--vs-one)', $inner: { margin: 0 } },",
    child: "icon: { variables: { shade: '1' }, component: {} },",
    own: "component: { fontSize: '1rem' },",
    wrongPart: '$conten: {},',
    wrongObject: 'content: { color: 0 },',
    typed: 'VsLoadingStyleSet: {},',
    quoted: "'$inner': { a: 1 },",
    comment: '/* bogus: { a: 1 }, */',
    colour: "backgroundColor: '#ff0000',",
    clear: "borderColor: 'rgba(0, 0, 0, 0.5)',",
    // neither a colour nor a variable that is used
    remark: "/* was '#fff', or --old: hsl(0 0% 0%) */",
    foreign: '...{ color: "var(--my-gap)" },',
};

export default function create(): Adapter {
    let s: any;
    let seen: any;

    function source() {
        const object = (head: string, tail: string) => {
            const has = (e: string) => s.elems.has(e);
            if (s.layout === 'compact') {
                const vars = BLOCK.filter(has).map((e) => TEXT[e]);
                const rest = ORDER.filter(has).map((e) => TEXT[e]);
                return [`${head} ${[...(vars.length ? [`variables: { ${vars.join(' ')} },`] : []), ...rest].join(' ')} ${tail}`];
            }
            const vars = BLOCK.some(has);
            return [
                head,
                vars ? '  variables: {' : '',
                ...BLOCK.map((e) => (has(e) ? `    ${TEXT[e]}` : '')),
                vars ? '  },' : '',
                ...ORDER.map((e) => (has(e) ? `  ${TEXT[e]}` : '')),
                tail,
            ];
        };
        const other = s.comp === 'VsOld' ? 'VsNew' : 'VsOld';
        if (s.wrap === 'typed') return [undefined, object(`const look: ${s.comp}StyleSet = {`, '};')];
        if (s.wrap === 'imported')
            return [undefined, [`import type { ${other}StyleSet, ${s.comp}StyleSet } from 'vlossom';`, ...object(`const own: ${s.comp}StyleSet = {`, '};')]];
        if (s.wrap === 'ref') return [undefined, ["import { ref } from 'vue';", ...object(`const look = ref<${s.comp}StyleSet>({`, '});')]];
        if (s.wrap === 'computed') return [undefined, ["import { computed } from 'vue';", ...object(`const look = computed<${s.comp}StyleSet>(() => ({`, '}));')]];
        if (s.wrap === 'returned') return [[s.comp], ['function look() {', ...object('  return {', '  };'), '}']];
        if (s.wrap === 'bare') return [[s.comp === 'VsOld' ? 'vs-old' : 'vs-new'], object('{', '}')];
        if (s.wrap === 'other') return [[other], object(`const look: ${s.comp}StyleSet = {`, '};')];
        if (s.wrap === 'nowhere') return [undefined, object('const look: VsNowhereStyleSet = {', '};')];
        return [undefined, object('const look = {', '};')];
    }
    async function validate(lines: string[], components: string[] | undefined) {
        return validateVlossomUsage({
            kind: 'style-set',
            code: lines.join('\n'),
            context: { version: s.version === '-' ? undefined : s.version, components },
        });
    }
    async function check() {
        const [components, lines] = source() as any;
        const result = await validate(lines, components);
        const issues: Record<string, number> = {};
        for (const i of result.issues) {
            const label = `${i.line ?? 0} ${i.ruleId}`;
            issues[label] = (issues[label] ?? 0) + 1;
        }
        if (result.valid !== (result.status === 'ok')) issues[`status ${result.status}`] = 1;
        return { issues: Object.keys(issues).length ? issues : [], valid: result.valid };
    }

    return {
        async start(c) {
            s = { ...c, elems: new Set() };
            stubNetwork(
                () => undefined,
                (path) => FILES[path.match(/components\/([a-z-]+\/\w+\.\w+)$/)?.[1] ?? ''],
            );
            seen = await check();
        },
        async step(a) {
            if (a.op === 'scaffold') {
                const made = await scaffoldStyleSet({ component: s.comp, description: 'look' }, { source: 'default', warnings: [], ref: 'main', refCandidates: ['main'] } as any);
                const result = await validateVlossomUsage({ kind: 'style-set', code: made.code });
                return { issues: result.issues.length, keys: made.childRefs?.map((r) => r.key) };
            }
            if (a.op === 'flip') s.elems.has(a.x) ? s.elems.delete(a.x) : s.elems.add(a.x);
            else s[a.op] = a.x;
            seen = await check();
        },
        observe: () => seen,
        stop() {
            vi.unstubAllGlobals();
        },
    };
}
