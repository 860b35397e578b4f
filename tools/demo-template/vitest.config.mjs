import { defineConfig } from 'vitest/config';
import vue from '@vitejs/plugin-vue';

const src = `${process.env.REPO}/packages/vlossom/src`;

export default defineConfig({
    root: new URL('.', import.meta.url).pathname,
    plugins: [vue()],
    resolve: { alias: { '@': src, '#mcp': `${process.env.REPO}/packages/vlossom-mcp/src` } },
    server: { fs: { strict: false }, watch: null, ws: false },
    css: { postcss: { plugins: [] } },
    test: {
        environment: 'jsdom',
        environmentOptions: { jsdom: { pretendToBeVisual: true } },
        include: ['demo.test.ts'],
        css: false,
        testTimeout: 20000,
        pool: 'forks',
        reporters: ['default'],
    },
});
