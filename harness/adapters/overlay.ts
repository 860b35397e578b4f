import { defineComponent, h, nextTick, ref, type Ref } from 'vue';
import { mount, type VueWrapper } from '@vue/test-utils';
import { useOverlayCallback } from '@/composables';
import { useOverlayCallbackStore } from '@/stores';
import { OVERLAY_CLOSE, OVERLAY_OPEN } from '@/declaration';
import { fakeTimers, key, settle, type Adapter } from '#h/core';

interface Host {
    wrapper: VueWrapper<any>;
    id: Ref<string>;
    api: ReturnType<typeof useOverlayCallback>;
    openedAs: string;
}

let serial = 0;

export default function create(): Adapter {
    const store = useOverlayCallbackStore();
    const hosts: Host[] = [];
    let n = 0;
    let cfg: any;
    let out: any;
    const reset = () => {
        const zero = () => Array.from({ length: n }, () => 0);
        out = { opened: zero(), closed: zero(), keyed: zero(), openedHook: zero(), closedHook: zero() };
    };

    function makeHost(i: number): Host {
        // every third overlay is not given an identifier
        const id = ref(i % 3 === 2 ? '' : `ov-${i}-${serial++}`);
        const k = i + 1;
        const callbacks: any = {
            [OVERLAY_OPEN]: () => void out.openedHook[i]++,
            open: () => {
                out.opened[i]++;
                hosts[i].openedAs = hosts[i].id.value || hosts[i].api.overlayId.value;
            },
            [OVERLAY_CLOSE]: () => {
                out.closedHook[i]++;
                hosts[i].api.deactivate();
            },
            close: () => {
                out.closed[i]++;
                const r = cfg.onClose[i];
                if (r === 'pop') store.pop();
                else if (r === 'clear') store.clear();
                else if (r === 'next') store.remove(hosts[k % n].api.overlayId.value);
            },
        };
        for (const code of cfg.keys[i]) callbacks[`key-${code}`] = () => void out.keyed[i]++;
        let api: any;
        const wrapper = mount(
            defineComponent({
                setup() {
                    api = useOverlayCallback(id, ref(callbacks));
                    return () => h('div');
                },
            }),
        );
        return { wrapper, id, api, openedAs: '' };
    }

    return {
        start(c) {
            fakeTimers();
            cfg = c;
            n = c.onClose.length;
            reset();
            for (let i = 0; i < n; i++) hosts.push(makeHost(i));
        },
        async step(a) {
            reset();
            const x = a.i ? hosts[a.i - 1] : null;
            if (a.op === 'open') x!.api.activate();
            else if (a.op === 'close') x!.api.deactivate();
            else if (a.op === 'remove') store.remove(x!.api.overlayId.value);
            else if (a.op === 'unmount') {
                x!.wrapper.unmount();
                await settle();
                hosts[a.i - 1] = makeHost(a.i - 1);
            } else if (a.op === 'rename') x!.id.value = `ov-${a.i - 1}-${serial++}`;
            else if (a.op === 'pop') store.pop();
            else if (a.op === 'clear') store.clear();
            else if (a.op === 'key') key(a.k);
            await settle();
            const { opened, closed, keyed, openedHook, closedHook } = out;
            if (JSON.stringify(opened) !== JSON.stringify(openedHook)) return { opened, openedHook };
            if (JSON.stringify(closed) !== JSON.stringify(closedHook)) return { closed, closedHook };
            return { opened, closed, keyed };
        },
        observe() {
            const top = store.getLastOverlayId();
            return {
                open: hosts.map((x) => x.api.isActivated.value),
                depth: store.overlays.value.length,
                top: top ? hosts.findIndex((x) => x.openedAs === top) + 1 : 0,
            };
        },
        async stop() {
            reset();
            for (const x of hosts) x.wrapper.unmount();
            await settle();
            cfg = { ...cfg, onClose: cfg.onClose.map(() => 'none') };
            store.clear();
            await nextTick();
        },
    };
}
