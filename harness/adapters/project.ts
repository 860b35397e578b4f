import { vi } from 'vitest';
import type { Adapter } from '#h/core';
import { stubNetwork } from '#h/mcp/repo';
import { getVlossomReference } from '#mcp/internal/reference/reference-service';
import { validateVlossomUsage } from '#mcp/internal/validation/validate-vlossom-usage';

const PATHS: any = { main: 'src/main.ts', plugin: 'app/plugins/vlossom.js', windows: 'src\\main.js', other: 'src/setup.ts' };
const SETUP: any = {
    create: 'import { createVlossom } from "vlossom";\napp.use(createVlossom(options));',
    components: 'import * as all from "./all";\nexport const list = all.VlossomComponents;',
    option: 'const options = { components : list };',
    styles: "import 'vlossom/styles';",
};
const LINES: any = {
    native: [2, '<button type="button">go</button>'],
    uncovered: [3, '<table></table>'],
    tag: [4, '<el-button>go</el-button>'],
    unknown: [5, '<q-page />'],
    inline: [6, '<vs-button size="md" style="color: red">go</vs-button>'],
    bound: [7, '<vs-button :style="look" :style-set="look">go</vs-button>'],
    again: [8, '<p><el-button /></p>'],
    import: [11, "import { VBtn } from 'vuetify/components';"],
    // commented out
    remark: [14, '<!-- <button>old</button> <vs-button style="color: red" /> -->'],
    beyond: [15, '<vs-button :disabled="a > b" style="color: red">go</vs-button>'],
    near: [12, "import near from 'vuetify-like';"],
};
const README = '# VsButton\n\nA button\n\n**Available Version**: 2.0.0+\n\n';

export default function create(): Adapter {
    let s: any;
    let seen: any;
    const flip = (set: Set<string>, x: string) => (set.has(x) ? set.delete(x) : set.add(x));

    async function check() {
        const files: any[] = [];
        if (s.page) {
            const lines = ['<template><main>', '', '', '', '', '', '', '', '</main></template>', '<script setup>', '', '', '</script>', '', ''];
            for (const u of s.uses) lines[LINES[u][0] - 1] = LINES[u][1];
            files.push({ path: 'src/App.vue', content: lines.join('\n') });
        }
        if (s.entry !== 'none') files.push({ path: PATHS[s.entry], content: [...s.parts].map((p: any) => SETUP[p]).join('\n') });
        // what is needed at work, and what is needed only while developing
        const own: any = { dependencies: {}, devDependencies: {} };
        for (const d of s.deps) own[d === 'tailwindcss' || d === 'primevue' ? 'devDependencies' : 'dependencies'][d] = d === 'vlossom' ? '^2.2.0' : '1.0.0';
        if (!Object.keys(own.dependencies).length) delete own.dependencies;
        const packageJson = s.pkg === 'json' ? JSON.stringify(own) : s.pkg === 'broken' ? '{ "dependencies": ' : undefined;
        const result = await validateVlossomUsage({
            kind: 'project-setup',
            packageJson,
            ...(files.length ? { files } : {}),
            context: s.mode === 'unset' ? {} : { vlossomFirst: s.mode },
        });
        const setup = result.issues.filter((i) => i.ruleId === 'PROJECT_SETUP');
        const others = result.issues.filter((i) => i.ruleId !== 'PROJECT_SETUP');
        const uses = others.filter((i) => i.line !== undefined);
        const policy = others.filter((i) => i.line === undefined && i.severity === 'error');
        const names = uses.every((i) => i.message.startsWith('src/App.vue:'));
        // what an issue says to look up is there
        let leads = true;
        for (const { tool, input } of uses.flatMap((i) => i.actions ?? []) as any[])
            if (tool === 'get_vlossom_reference' && (await getVlossomReference(input)).status !== 'ok') leads = false;
        return {
            status: result.status,
            valid: result.valid,
            setup: setup.every((i) => i.severity === 'error') ? setup.length : -1,
            policy: policy.length,
            uses: names ? uses.map((i) => [i.line, i.ruleId, i.severity]).sort((a: any, b: any) => a[0] - b[0]) : 'file not named',
            advice: (result.recommendations ?? []).some((r) => /vuetify|primevue/.test(r)),
            leads,
        };
    }

    return {
        async start(c) {
            s = { ...c, uses: new Set(), deps: new Set(c.fixed), parts: new Set(c.parts) };
            stubNetwork(
                () => undefined,
                (path) => (path.endsWith('components/vs-button/README.md') ? README : undefined),
            );
            seen = await check();
        },
        async step(a) {
            if (a.op === 'dep') flip(s.deps, a.x);
            else if (a.op === 'part') flip(s.parts, a.x);
            else if (a.op === 'use') flip(s.uses, a.x);
            else s[a.op] = a.x;
            seen = await check();
        },
        observe: () => seen,
        stop() {
            vi.unstubAllGlobals();
        },
    };
}
