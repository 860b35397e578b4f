// A stand-in for the network: a tiny repository per ref, answered by a stubbed fetch.
import { vi } from 'vitest';

export type Fault = (resource: string) => string | undefined;

const COMPONENTS: Record<string, string[]> = {
    'vlossom-v2.1.0': ['vs-alpha', 'vs-gamma'],
    'v2.2.0': ['vs-alpha', 'vs-beta'],
    main: ['vs-alpha', 'vs-beta', 'vs-delta'],
};
const REFS = Object.keys(COMPONENTS);

export const componentsOf = (ref: string) => COMPONENTS[ref];

/** Which kind of resource a path is; faults are injected by kind. */
function kindOf(path: string, ref: string): string {
    if (path.startsWith('/releases')) return 'rel';
    if (path.startsWith('/contents')) return 'dir';
    if (path === 'packages/vlossom/package.json') return ref === 'main' ? 'main' : 'ref';
    if (path.endsWith('README.md')) return 'readme';
    return 'aux';
}

const P = 'packages/vlossom/src/';

function list(names: string[], dir: string) {
    return names.map((name) => ({ name, path: `${P}${dir}/${name}`, type: name.includes('.') ? 'file' : 'dir' }));
}

function directory(dir: string, ref: string) {
    switch (dir) {
        case 'components':
            return list([...COMPONENTS[ref], 'index.ts', 'shared'], dir);
        case 'directives':
            return list(['vs-one', 'vs-two', 'index.ts'], dir);
        case 'composables':
            return list(['one-thing', 'other-thing', '__tests__', 'index.ts'], dir);
        case 'plugins':
            return list(['two-plugin', 'one-plugin', 'index.ts'], dir);
    }
}

const table = (head: string[], ...rows: string[][]) =>
    [head, head.map(() => '---'), ...rows].map((r) => `| ${r.join(' | ')} |`).join('\n');

function readme(path: string, ref: string): string | undefined {
    if (path === 'packages/vlossom/README.md') return `# Vlossom\n\n## Setup\n\n\`\`\`ts\nsetup(${ref})\n\`\`\`\n`;
    const [, dir, name] = path.match(/src\/([a-z]+)\/([a-z-]+)\/README\.md$/) ?? [];
    if (dir === 'components') {
        if (!COMPONENTS[ref].includes(name)) return undefined;
        return `# ${name}\n\n${name} of ${ref}\n\n**Available Version**: 2.1.0+\n\n## Props\n\n${table(
            ['Prop', 'Type', 'Default', 'Required', 'Description'],
            ['`label`', '`string`', '-', 'Yes', `label in ${ref}`],
        )}\n\n## Events\n\n${table(['Event', 'Payload', 'Description'], ['`picked`', '`string`', 'picked'])}\n\n## Slots\n\n${table(['Slot', 'Description'], ['`default`', 'content'])}\n\n## Methods\n\n${table(['Method', 'Parameters', 'Description'], ['`focus`', '-', 'focus'])}\n`;
    }
    if (dir === 'directives')
        return `# v-${name.slice(3)}\n\n${name} of ${ref}\n\n**Available Version**: 2.1.0+\n\n## Basic Usage\n\n\`\`\`vue\n<div v-${name.slice(3)} />\n\`\`\`\n\n## Options\n\n${table(['Binding', 'Type', 'Default', 'Description'], ['`value`', '`string`', '-', 'text'])}\n`;
    if (dir === 'composables')
        return `# use${name === 'one-thing' ? 'OneThing' : 'OtherThing'}\n\n${name} of ${ref}\n\n**Available Version**: 2.1.0+\n\n## Args\n\n${table(['Arg', 'Type', 'Default', 'Required', 'Description'], ['`a`', '`string`', '-', 'Yes', 'text'])}\n`;
    if (dir === 'plugins')
        return `# ${name}\n\n${name} of ${ref}\n\n**Available Version**: 2.1.0+\n\n## Methods\n\n${table(['Method', 'Parameters', 'Description'], ['`open`', '`a: string`', 'opens'])}\n`;
}

function aux(path: string, ref: string): string | undefined {
    if (path.endsWith('/composables/index.ts')) return `export { useOneThing } from './one-thing/one-thing';\n`;
    if (path.endsWith('/styles/variables.css')) return `:root {\n  --vs-one: ${ref};\n}\n`;
    if (path.endsWith('/styles/palette.css')) return `:root {\n  --vs-red-500: red;\n}\n`;
    if (path.endsWith('/styles/color-scheme-variables.css'))
        return `:root {\n  --vs-comp-bg: white;\n  @variant dark {\n    --vs-comp-bg: black;\n  }\n}\n`;
    const [, name, file] = path.match(/src\/components\/([a-z-]+)\/([A-Za-z]+\.\w+)$/) ?? [];
    if (!name || !COMPONENTS[ref].includes(name)) return undefined;
    const pascal = name.split('-').map((s) => s[0].toUpperCase() + s.slice(1)).join('');
    if (file === 'types.ts')
        return `export interface ${pascal}StyleSet {\n  variables?: {\n    color?: string;\n  };\n  component?: CSSProperties;\n}\n`;
    if (file === `${pascal}.vue`) return `<template>${name} of ${ref}</template>`;
}

const RELEASES = [
    ['vlossom-v2.1.0', false],
    ['v2.10.0', false],
    ['v2.2.0', false],
    ['vlossom-v2.11.0-beta.1', true],
].map(([tag_name, prerelease]) => ({ tag_name, name: null, draft: false, prerelease, published_at: '2026-01-02T00:00:00Z', body: '## Features\n- more' }));

const reply = (status: number, body: string, parse = true) => ({
    ok: status < 400,
    status,
    json: async () => (parse ? JSON.parse(body) : Promise.reject(new SyntaxError('Unexpected end of JSON input'))),
    text: async () => (parse ? body : Promise.reject(new TypeError('terminated'))),
});

/** Replaces fetch; `fault` says how a resource fails right now, `override` may add or replace readmes. */
export function stubNetwork(fault: Fault = () => undefined, override: (path: string, ref: string) => string | undefined = () => undefined, refs: string[] = REFS) {
    vi.stubGlobal('fetch', async (input: any) => {
        const url = String(input);
        const api = url.match(/^https:\/\/api\.github\.com\/repos\/vlossom-ui\/vlossom(.*)$/);
        const raw = url.match(/^https:\/\/raw\.githubusercontent\.com\/vlossom-ui\/vlossom\/([^/]+)\/(.*)$/);
        const path = api ? api[1] : raw![2];
        const how = fault(kindOf(path, raw ? raw[1] : ''));
        await Promise.resolve();
        if (how === 'reject') throw new TypeError('fetch failed');
        if (how === 'cut') return reply(200, '', false);
        if (how) return reply(Number(how), '');
        if (api) {
            if (path.startsWith('/releases')) return reply(200, JSON.stringify(RELEASES));
            const [, dir, ref] = path.match(/^\/contents\/packages\/vlossom\/src\/([a-z]+)\?ref=(.*)$/)!;
            if (!refs.includes(ref)) return reply(404, '');
            const entries = directory(dir, ref);
            return entries ? reply(200, JSON.stringify(entries)) : reply(404, '');
        }
        const ref = decodeURIComponent(raw![1]);
        if (!refs.includes(ref)) return reply(404, '');
        const own = override(path, ref);
        if (own !== undefined) return reply(200, own);
        if (path === 'packages/vlossom/package.json') return reply(200, JSON.stringify({ version: ref }));
        const text = path.endsWith('README.md') ? readme(path, ref) : aux(path, ref);
        return text === undefined ? reply(404, '') : reply(200, text);
    });
}

/** A server double that keeps the registered tool handlers. */
export function toolServer() {
    const tools: Record<string, (input: any) => Promise<any>> = {};
    return { tools, registerTool: (name: string, _: unknown, handler: any) => void (tools[name] = handler) };
}
