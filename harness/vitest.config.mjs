import { defineConfig } from 'vitest/config';
import vue from '@vitejs/plugin-vue';

const REPO = process.env.VERIF_REPO ?? '/repo';
const UI = `${REPO}/packages/vlossom`;
const HERE = new URL('.', import.meta.url).pathname;

export default defineConfig({
    root: HERE,
    cacheDir: process.env.VERIF_CACHE ?? `${HERE}../.cache/vite`,
    plugins: [vue()],
    resolve: {
        alias: { '@': `${UI}/src`, '#h': HERE.replace(/\/$/, ''), '#mcp': `${REPO}/packages/vlossom-mcp/src` },
        dedupe: ['vue'],
    },
    server: { fs: { strict: false }, watch: null, ws: false },
    css: { postcss: { plugins: [] } },
    test: {
        environment: 'jsdom',
        environmentOptions: { jsdom: { pretendToBeVisual: true } },
        include: ['replay.test.ts'],
        css: false,
        testTimeout: 0,
        hookTimeout: 0,
        teardownTimeout: 1000,
        pool: 'forks',
        fileParallelism: false,
        reporters: ['dot'],
        disableConsoleIntercept: true,
        dangerouslyIgnoreUnhandledErrors: true,
        alias: { sortablejs: `${HERE}stubs/sortablejs.ts` },
    },
});
