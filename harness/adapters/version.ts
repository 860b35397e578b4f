import type { Adapter } from '#h/core';
import { findUnsupportedEntries, getVersionSupport, resolveVersionContext } from '#mcp/internal/version/version-service';

const opt = (s: string) => (s === '-' ? undefined : s);

function manifest(section: string, declared: string): string | undefined {
    if (section === 'absent') return undefined;
    if (section === 'broken') return '{ "dependencies": { "vlossom": "2.1.0"';
    if (section === 'number') return JSON.stringify({ dependencies: { vlossom: 2, vue: '^3.4.0' } });
    const deps: any = { vue: '^3.9.9' };
    if (declared !== '-') deps.vlossom = declared;
    return JSON.stringify({ name: 'vlossom-app', version: '7.7.7', ...(section === 'dependencies' ? {} : { dependencies: { 'vlossom-extra': '8.8.8' } }), [section]: deps });
}

export default function create(): Adapter {
    let args: any;
    return {
        start(c) {
            args = c;
        },
        step() {},
        observe() {
            const context = resolveVersionContext({ version: opt(args.given), packageJson: manifest(args.section, args.declared) });
            const entry = { name: 'x', availableVersion: opt(args.entry) };
            const { status } = getVersionSupport(entry.availableVersion, context);
            const listed = findUnsupportedEntries([{ name: 'y' }, entry], context).map((u) => u.entry.name).join();
            return {
                source: context.source,
                detected: context.detectedVersion ?? '-',
                says: context.warnings.length > 0,
                status: listed === (status === 'unsupported' ? 'x' : '') ? status : `${status}, but listed as ${listed}`,
            };
        },
        stop() {},
    };
}
