From cc099cf5bae0bb9a7b289d4432112cb2b1dd78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:10 +0000
Subject: [PATCH 01/99] fix: keep the overlay stack consistent when close
 callbacks close other overlays

---
 .../src/stores/overlay-callback-store.ts      | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom/src/stores/overlay-callback-store.ts b/packages/vlossom/src/stores/overlay-callback-store.ts
index 2aaf40d..6fb0655 100644
--- a/packages/vlossom/src/stores/overlay-callback-store.ts
+++ b/packages/vlossom/src/stores/overlay-callback-store.ts
@@ -64,12 +64,7 @@ export class OverlayCallbackStore {
         if (!overlay) {
             return;
         }
-        const [targetId] = overlay;
-        this.run(targetId, OVERLAY_CLOSE, ...args);
-        const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.pop();
-
-        return result;
+        return this.closeAt(this._overlays.value.length - 1, ...args);
     }
 
     public remove(id: string, ...args: any[]) {
@@ -77,12 +72,18 @@ export class OverlayCallbackStore {
         if (index === -1) {
             return;
         }
-        const [targetId] = this._overlays.value[index];
-        this.run(targetId, OVERLAY_CLOSE, ...args);
-        const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.splice(index, 1);
+        return this.closeAt(index, ...args);
+    }
 
-        return result;
+    // take the overlay off the stack before notifying it, since its callbacks may close other overlays
+    private closeAt(index: number, ...args: any[]) {
+        const [[, callbacks]] = this._overlays.value.splice(index, 1);
+        this.call(callbacks, OVERLAY_CLOSE, ...args);
+        return this.call(callbacks, 'close', ...args);
+    }
+
+    private async call(callbacks: Ref<OverlayCallbacks>, eventName: string, ...args: any[]): Promise<any> {
+        return await callbacks.value[eventName]?.(...args);
     }
 
     public clear(...args: any[]) {
-- 
2.43.0


From dd400a7b0cda2cf287f44a15eacaac2dc679e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:10 +0000
Subject: [PATCH 02/99] fix: release an overlay when its component unmounts or
 is renamed while open

---
 .../overlay-callback-composable.ts                | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 9617417..4764c4d 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -1,4 +1,4 @@
-import { computed, type Ref, ref, watch } from 'vue';
+import { computed, onScopeDispose, type Ref, ref, watch } from 'vue';
 import { useOverlayCallbackStore } from '@/stores';
 import { stringUtil } from '@/utils';
 import { ANIMATION_DURATION, type OverlayCallbacks } from '@/declaration';
@@ -10,6 +10,7 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     const isActivated = ref(false);
     const isUnmounting = ref(false);
+    let registeredId = '';
 
     function activate() {
         isActivated.value = true;
@@ -21,10 +22,12 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     watch(isActivated, (o) => {
         if (o) {
-            overlayCallbackStore.push(overlayId.value, callbacks);
+            registeredId = overlayId.value;
+            overlayCallbackStore.push(registeredId, callbacks);
         } else {
             isUnmounting.value = true;
-            overlayCallbackStore.remove(overlayId.value);
+            overlayCallbackStore.remove(registeredId);
+            registeredId = '';
 
             setTimeout(() => {
                 isUnmounting.value = false;
@@ -32,5 +35,11 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         }
     });
 
+    onScopeDispose(() => {
+        if (registeredId) {
+            overlayCallbackStore.remove(registeredId);
+        }
+    }, true);
+
     return { overlayId, isActivated, isUnmounting, activate, deactivate };
 }
-- 
2.43.0


From 2ff5a47871190880c8fb5819e44f53bcf1f0124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:29 +0000
Subject: [PATCH 03/99] fix: close the modal whose guard was asked, not
 whichever is last afterwards

---
 packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 451be6b..568a526 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -59,10 +59,9 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
-            modalStore.pop(container);
+            modalStore.remove(container, last.id);
 
-            const lastOverlayId = overlayCallbackStore.getLastOverlayId();
-            overlayCallbackStore.remove(lastOverlayId);
+            overlayCallbackStore.remove(last.id);
             return true;
         },
 
-- 
2.43.0


From 9c021dac701635daaebf02a98fefb6b0ac3152dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:02 +0000
Subject: [PATCH 04/99] fix: send dialog button clicks to their own dialog and
 settle dialogs that cannot open

---
 .../src/plugins/alert-plugin/alert-plugin.ts        | 11 +++++++----
 .../src/plugins/confirm-plugin/confirm-plugin.ts    | 13 ++++++++-----
 .../src/plugins/prompt-plugin/prompt-plugin.ts      | 13 ++++++++-----
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
index 620bc19..79e8de5 100644
--- a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
+++ b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
@@ -10,8 +10,7 @@ import type { AlertModalOptions, AlertPlugin, VsAlertStyleSet } from './types';
 export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleOk() {
-        const overlayId = overlayCallback.getLastOverlayId();
+    function handleOk(overlayId: string) {
         if (!overlayId) {
             return;
         }
@@ -21,6 +20,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
     return {
         open(content: string | Component, options: AlertModalOptions = {}): Promise<void> {
             const { componentProps, ...modalOptions } = options;
+            let modalId = '';
             const { container = 'body', colorScheme, styleSet, okText = 'OK' } = modalOptions;
 
             const baseStyleSet: Ref<Partial<VsAlertStyleSet>> = ref({
@@ -38,7 +38,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: handleOk,
+                onClickEvent: () => handleOk(modalId),
             });
 
             const contents = h(VsRender, { content, componentProps });
@@ -46,7 +46,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const alert = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(alert, {
+                modalId = modalPlugin.open(alert, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -68,6 +68,9 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve();
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
index e80e152..757d366 100644
--- a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
+++ b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
@@ -11,8 +11,7 @@ import type { ConfirmModalOptions, ConfirmPlugin, VsConfirmStyleSet } from './ty
 export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
+    function handleButton(overlayId: string, eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
         if (!overlayId) {
             return;
         }
@@ -22,6 +21,7 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
     return {
         open(content: string | Component, options: ConfirmModalOptions = {}): Promise<boolean> {
             const { componentProps, ...modalOptions } = options;
+            let modalId = '';
             const {
                 container = 'body',
                 colorScheme,
@@ -44,13 +44,13 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(CONFIRM_OK),
+                onClickEvent: () => handleButton(modalId, CONFIRM_OK),
             });
 
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(CONFIRM_CANCEL),
+                onClickEvent: () => handleButton(modalId, CONFIRM_CANCEL),
             });
 
             const buttonsClass = ['flex', 'w-full', 'items-center', 'justify-center', 'gap-2'];
@@ -68,7 +68,7 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const confirm = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(confirm, {
+                modalId = modalPlugin.open(confirm, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -94,6 +94,9 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve(false);
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
index d75b8a8..34d7d1f 100644
--- a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
+++ b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
@@ -10,8 +10,7 @@ import { vnodeUtils } from './../utils/vnode-utils';
 export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
+    function handleButton(overlayId: string, eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
         if (!overlayId) {
             return;
         }
@@ -21,6 +20,7 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
     return {
         open(content: string | Component, options: PromptModalOptions = {}): Promise<string | number | null> {
             const { componentProps, ...modalOptions } = options;
+            let modalId = '';
             const {
                 container = 'body',
                 colorScheme,
@@ -51,12 +51,12 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(PROMPT_OK),
+                onClickEvent: () => handleButton(modalId, PROMPT_OK),
             });
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(PROMPT_CANCEL),
+                onClickEvent: () => handleButton(modalId, PROMPT_CANCEL),
             });
             const buttons = h(
                 'div',
@@ -87,7 +87,7 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             };
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(prompt, {
+                modalId = modalPlugin.open(prompt, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -121,6 +121,9 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve(null);
+                }
             });
         },
     };
-- 
2.43.0


From 333093d28a7e59aa22e266e3ee1d9dddb2a55474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:02 +0000
Subject: [PATCH 05/99] fix: treat an empty number input as missing when it is
 required

---
 packages/vlossom/src/components/vs-input/vs-input-rules.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-input/vs-input-rules.ts b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
index 445e4fe..26b91f9 100644
--- a/packages/vlossom/src/components/vs-input/vs-input-rules.ts
+++ b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
@@ -8,7 +8,7 @@ export function useVsInputRules(
     type: Ref<VsInputType>,
 ) {
     function requiredCheck(v: VsInputValueType) {
-        if (required.value && v === '') {
+        if (required.value && (v === '' || v === null)) {
             return 'required';
         }
 
-- 
2.43.0


From 45877ae58fe67816a41f90eea407dab6c1c368bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:33 +0000
Subject: [PATCH 06/99] fix: do not mount a toast view for a container that
 does not exist

---
 packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
index cb27c5d..fabefbb 100644
--- a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
+++ b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
@@ -12,10 +12,6 @@ export function createToastPlugin(): ToastPlugin {
             const overlayContainerStore = useOverlayContainerStore();
             const toastStore = useToastContainerStore();
 
-            // mount ToastView to OverlayWrapper
-            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
-            overlayContainerStore.push(overlayId, container, 'VsToastView');
-
             const containerElement: HTMLElement | null = document.querySelector(container);
 
             if (!containerElement) {
@@ -27,6 +23,10 @@ export function createToastPlugin(): ToastPlugin {
                 containerElement.style.position = 'relative';
             }
 
+            // mount ToastView to OverlayWrapper
+            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
+            overlayContainerStore.push(overlayId, container, 'VsToastView');
+
             const toastInfo = createToastInfo(content, options);
             toastStore.push(container, toastInfo);
 
-- 
2.43.0


From 21bd765e26ab0d1e9de0bf05f11f0f98904136d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:10 +0000
Subject: [PATCH 07/99] fix: ignore answers of outdated asynchronous rules and
 messages

---
 .../composables/input-messages/input-messages-composable.ts | 6 ++++++
 .../src/composables/input-rules/input-rules-composable.ts   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
index cd08555..ab12bda 100644
--- a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
+++ b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
@@ -9,7 +9,9 @@ export function useInputMessages<T>(
     const innerMessages: Ref<StateMessage[]> = ref([]);
     const showRuleMessages = ref(false);
 
+    let lastCheck = 0;
     async function checkMessages() {
+        const check = ++lastCheck;
         innerMessages.value = [];
         const pendingMessages: Promise<StateMessage>[] = [];
 
@@ -30,6 +32,10 @@ export function useInputMessages<T>(
             return;
         }
         const resolvedMessages = await Promise.all(pendingMessages);
+        // a newer check has started meanwhile
+        if (check !== lastCheck) {
+            return;
+        }
         innerMessages.value.push(...resolvedMessages);
     }
 
diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index 4d2fabd..7fb7208 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -16,7 +16,9 @@ export function useInputRules<T>(
     });
 
     const ruleMessages: Ref<StateMessage[]> = ref([]);
+    let lastCheck = 0;
     async function checkRules() {
+        const check = ++lastCheck;
         ruleMessages.value = [];
         const pendingRules: Promise<string>[] = [];
 
@@ -46,6 +48,10 @@ export function useInputRules<T>(
             return acc;
         }, []);
 
+        // a newer check has started meanwhile
+        if (check !== lastCheck) {
+            return;
+        }
         ruleMessages.value.push(...resolvedMessages);
     }
     watch(computedRules, checkRules, { deep: true });
-- 
2.43.0


From 2b71787603ce3e6e8ab9a7e1ec6c286cf7ecd810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:10 +0000
Subject: [PATCH 08/99] fix: empty the text area when it is cleared

---
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index cd0262d..469cefe 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -141,6 +141,9 @@ export default defineComponent({
                     onChange: () => {
                         inputValue.value = convertValue(inputValue.value);
                     },
+                    onClear: () => {
+                        inputValue.value = '';
+                    },
                 },
             },
         );
-- 
2.43.0


From a92079ccd7ecd4468fef84fba2bb1f616a4d9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:10 +0000
Subject: [PATCH 09/99] fix: respect noDefaultRules in the file drop

---
 packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index 4d8df07..f79e2a7 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -144,6 +144,7 @@ export default defineComponent({
             messages,
             multiple,
             rules,
+            noDefaultRules,
             state,
             max,
             min,
@@ -206,6 +207,7 @@ export default defineComponent({
                 messages: computed(() => [...messages.value, ...componentMessages.value]),
                 rules,
                 defaultRules: computed(() => [requiredCheck, acceptCheck]),
+                noDefaultRules,
                 state,
                 callbacks: {
                     onMounted: () => {
-- 
2.43.0


From 55443106b025f59087f31057a4388fc68b5dd7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:37 +0000
Subject: [PATCH 10/99] fix: check a required radio against its own value

---
 packages/vlossom/src/components/vs-radio/VsRadio.vue    | 9 ++++++++-
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index b0b4692..238e632 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -114,8 +114,15 @@ export default defineComponent({
                 return '';
             }
 
+            // this element is not updated yet when the value has just been assigned
+            if (isChecked.value || ![null, undefined, ''].includes(inputValue.value)) {
+                return '';
+            }
+
             const radioElements = document.querySelectorAll(`input[name="${name.value}"]`);
-            const checkedRadioElement = Array.from(radioElements).find((el) => (el as HTMLInputElement).checked);
+            const checkedRadioElement = Array.from(radioElements).find(
+                (el) => el !== radioRef.value && (el as HTMLInputElement).checked,
+            );
             return !checkedRadioElement ? 'required' : '';
         }
 
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index d4c55dc..af612b9 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -35,6 +35,7 @@
                 :name="resolvedName"
                 no-label
                 no-messages
+                no-default-rules
                 :before-change
                 :color-scheme
                 :required
-- 
2.43.0


From 204788560413186cf9b5e0606583adaee275f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:51 +0000
Subject: [PATCH 11/99] fix: carry out repeated validate and clear requests of
 a form

---
 .../src/composables/input-form/input-form-composable.ts      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/input-form/input-form-composable.ts b/packages/vlossom/src/composables/input-form/input-form-composable.ts
index 942694b..9143f54 100644
--- a/packages/vlossom/src/composables/input-form/input-form-composable.ts
+++ b/packages/vlossom/src/composables/input-form/input-form-composable.ts
@@ -22,9 +22,10 @@ export function useInputForm(
         formStore.updateValid(id.value, valid.value);
     });
 
-    watch(formStore.validateFlag, validate);
+    // sync: two requests in the same tick toggle the flag back
+    watch(formStore.validateFlag, validate, { flush: 'sync' });
 
-    watch(formStore.clearFlag, clear);
+    watch(formStore.clearFlag, clear, { flush: 'sync' });
 
     onMounted(() => {
         formStore.updateChanged(id.value, changed.value);
-- 
2.43.0


From 2def4fdbe5c67226105da6f8188770101f1261d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:51 +0000
Subject: [PATCH 12/99] fix: keep both fields in the form when they exchange
 their ids

---
 .../input-form/input-form-composable.ts            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/composables/input-form/input-form-composable.ts b/packages/vlossom/src/composables/input-form/input-form-composable.ts
index 9143f54..9ce678b 100644
--- a/packages/vlossom/src/composables/input-form/input-form-composable.ts
+++ b/packages/vlossom/src/composables/input-form/input-form-composable.ts
@@ -32,12 +32,20 @@ export function useInputForm(
         formStore.updateValid(id.value, valid.value);
     });
 
-    watch(id, (newId, oldId) => {
+    watch(id, (_, oldId) => {
         formStore.removeFromForm(oldId);
-        formStore.updateChanged(newId, changed.value);
-        formStore.updateValid(newId, valid.value);
     });
 
+    // post: two fields can exchange their ids
+    watch(
+        id,
+        (newId) => {
+            formStore.updateChanged(newId, changed.value);
+            formStore.updateValid(newId, valid.value);
+        },
+        { flush: 'post' },
+    );
+
     onBeforeUnmount(() => {
         formStore.removeFromForm(id.value);
     });
-- 
2.43.0


From c95479a06249b4ed4d35bef3e758fc6a60461406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:37 +0000
Subject: [PATCH 13/99] fix: do not count inner controls of a field as fields
 of the form

---
 .../vlossom/src/components/vs-checkbox/VsCheckboxSet.vue  | 8 ++++++--
 .../src/components/vs-date-picker/VsDatePicker.vue        | 7 ++++++-
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue   | 8 ++++++--
 packages/vlossom/src/components/vs-select/VsSelect.vue    | 7 ++++++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 3310bc5..155db9c 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -56,8 +56,9 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type PropType, type TemplateRef } from 'vue';
-import { VsComponent, type Size } from '@/declaration';
+import { computed, defineComponent, provide, ref, toRefs, type PropType, type TemplateRef } from 'vue';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import {
     getColorSchemeProps,
     getOptionsProps,
@@ -123,6 +124,9 @@ export default defineComponent({
             vertical,
         } = toRefs(props);
 
+        // the inner controls are not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const checkboxRefs: TemplateRef<InstanceType<typeof VsCheckbox>[]> = ref([]);
 
         const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 055d0ff..8ebdbc1 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -60,6 +60,7 @@
 import {
     computed,
     defineComponent,
+    provide,
     ref,
     toRefs,
     useTemplateRef,
@@ -69,7 +70,8 @@ import {
     type Ref,
     type TemplateRef,
 } from 'vue';
-import { VsComponent, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import { logUtil } from '@/utils';
 import { useStyleSet, useInput } from '@/composables';
 import { getInputProps, getResponsiveProps, getColorSchemeProps, getStyleSetProps } from '@/props';
@@ -177,6 +179,9 @@ export default defineComponent({
             state,
         } = toRefs(props);
 
+        // the inner controls are not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const dateInputRef: TemplateRef<VsInputRef> = useTemplateRef('dateInputRef');
 
         const inputValue: Ref<VsDatePickerValueType> = ref(modelValue.value);
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index af612b9..276b00a 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -57,10 +57,11 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
+import { computed, defineComponent, provide, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
 import { useColorScheme, useInput, useInputOption, useSizeClass, useStyleSet } from '@/composables';
 import { getColorSchemeProps, getOptionsProps, getInputProps, getResponsiveProps, getStyleSetProps } from '@/props';
-import { VsComponent, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 import type { VsRadioSetStyleSet } from './types';
 
@@ -114,6 +115,9 @@ export default defineComponent({
             width,
         } = toRefs(props);
 
+        // the inner controls are not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const radioRefs: TemplateRef<InstanceType<typeof VsRadio>[]> = useTemplateRef('radioRefs');
 
         const inputValue = ref(modelValue.value);
diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index b25905e..ee53eec 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -115,6 +115,7 @@ import {
     computed,
     defineComponent,
     nextTick,
+    provide,
     ref,
     toRefs,
     useTemplateRef,
@@ -125,7 +126,8 @@ import {
     type TemplateRef,
     type CSSProperties,
 } from 'vue';
-import { VsComponent, type OptionItem, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type OptionItem, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import {
     getColorSchemeProps,
     getStyleSetProps,
@@ -224,6 +226,9 @@ export default defineComponent({
             size,
         } = toRefs(props);
 
+        // the inner controls are not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const isOpen = ref(false);
         const isFocused = ref(false);
         const inputValue: Ref<any> = ref(modelValue.value);
-- 
2.43.0


From 104044f79a679be160ca0248a976b65b54cf848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:42 +0000
Subject: [PATCH 14/99] fix: keep a read-only file drop unchanged by the file
 dialog

---
 packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index f79e2a7..a22ea4b 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -293,7 +293,8 @@ export default defineComponent({
             const target = event.target as HTMLInputElement;
             const files = Array.from(target.files || []);
 
-            if (files.length === 0) {
+            // the native file input has no read-only state
+            if (files.length === 0 || computedDisabled.value || computedReadonly.value) {
                 return;
             }
 
-- 
2.43.0


From b482c56029a5338c19368d49b0c9e0de12c2eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:21 +0000
Subject: [PATCH 15/99] fix: keep the selection when there is no entry to move
 to

---
 .../components/vs-pagination/VsPagination.vue   |  4 ++--
 .../vlossom/src/components/vs-tabs/VsTabs.vue   |  5 +++--
 .../list-index-selector-composable.ts           | 17 +++++++++++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/packages/vlossom/src/components/vs-pagination/VsPagination.vue b/packages/vlossom/src/components/vs-pagination/VsPagination.vue
index 7f89afc..aa2153e 100644
--- a/packages/vlossom/src/components/vs-pagination/VsPagination.vue
+++ b/packages/vlossom/src/components/vs-pagination/VsPagination.vue
@@ -216,11 +216,11 @@ export default defineComponent({
         }
 
         function goPrev() {
-            selectIndex(selectedIndex.value - 1);
+            selectIndex(Math.max(selectedIndex.value - 1, 0));
         }
 
         function goNext() {
-            selectIndex(selectedIndex.value + 1);
+            selectIndex(Math.min(selectedIndex.value + 1, length.value - 1));
         }
 
         watch(modelValue, syncIndex, { immediate: true });
diff --git a/packages/vlossom/src/components/vs-tabs/VsTabs.vue b/packages/vlossom/src/components/vs-tabs/VsTabs.vue
index 00864e7..df7bd7b 100644
--- a/packages/vlossom/src/components/vs-tabs/VsTabs.vue
+++ b/packages/vlossom/src/components/vs-tabs/VsTabs.vue
@@ -151,6 +151,7 @@ export default defineComponent({
             findActiveIndexBackwardFrom,
             selectIndex: selectTab,
             syncIndex,
+            moveTo,
             handleKeydown,
             isFirstEdge,
             isLastEdge,
@@ -188,12 +189,12 @@ export default defineComponent({
 
         function goPrev() {
             const targetIndex = findActiveIndexBackwardFrom(selectedIndex.value - 1);
-            selectTab(targetIndex);
+            moveTo(targetIndex);
         }
 
         function goNext() {
             const targetIndex = findActiveIndexForwardFrom(selectedIndex.value + 1);
-            selectTab(targetIndex);
+            moveTo(targetIndex);
         }
 
         function calculateVisibleTabCount() {
diff --git a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
index 20e6cd2..6497daa 100644
--- a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
+++ b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
@@ -107,6 +107,14 @@ export function useIndexSelector(
         return selectedIndex.value === lastActiveIndex;
     });
 
+    function moveTo(index: number) {
+        // nothing to move to in this direction
+        if (index === NOT_SELECTED) {
+            return;
+        }
+        selectIndex(index);
+    }
+
     function handleKeydown(e: KeyboardEvent, isVertical: boolean) {
         const keyMap = {
             prev: isVertical ? 'ArrowUp' : 'ArrowLeft',
@@ -118,19 +126,19 @@ export function useIndexSelector(
                 return;
             }
             e.preventDefault();
-            selectIndex(findActiveIndexBackwardFrom(selectedIndex.value - 1));
+            moveTo(findActiveIndexBackwardFrom(selectedIndex.value - 1));
         } else if (e.key === keyMap.next) {
             if (isLastEdge.value) {
                 return;
             }
             e.preventDefault();
-            selectIndex(findActiveIndexForwardFrom(selectedIndex.value + 1));
+            moveTo(findActiveIndexForwardFrom(selectedIndex.value + 1));
         } else if (e.key === 'Home') {
             e.preventDefault();
-            selectIndex(findActiveIndexForwardFrom(0));
+            moveTo(findActiveIndexForwardFrom(0));
         } else if (e.key === 'End') {
             e.preventDefault();
-            selectIndex(findActiveIndexBackwardFrom(list.value.length - 1));
+            moveTo(findActiveIndexBackwardFrom(list.value.length - 1));
         }
     }
 
@@ -153,6 +161,7 @@ export function useIndexSelector(
         findActiveIndexBackwardFrom,
         selectIndex,
         syncIndex,
+        moveTo,
         handleKeydown,
         isFirstEdge,
         isLastEdge,
-- 
2.43.0


From 17b3f9294dcf64b4068c1a57e6eedb9cc87f359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:53 +0000
Subject: [PATCH 16/99] fix: let the header checkbox of a table act on the
 selectable rows only

---
 .../composables/table-select-composable.ts       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
index badfb84..bc628ee 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
@@ -15,20 +15,26 @@ export function useTableSelect(
     const selectableItems = computed<VsTableItem[]>(() => {
         return items.value.filter(selectable.value);
     });
+    // same comparison as the row checkboxes
+    function includesItem(list: VsTableItem[], item: VsTableItem): boolean {
+        return list.some((other) => objectUtil.isEqual(other, item));
+    }
+    function isSelected(item: VsTableItem): boolean {
+        return includesItem(selectedItems.value, item);
+    }
     const selectedPartial = computed(() => {
-        return selectedItems.value.length > 0 && selectedItems.value.length < selectableItems.value.length;
+        return !selectedAll.value && selectableItems.value.some(isSelected);
     });
     const selectedAll = computed(() => {
-        const selectableLength = selectableItems.value.length;
-        return selectableLength > 0 && selectedItems.value.length === selectableLength;
+        return selectableItems.value.length > 0 && selectableItems.value.every(isSelected);
     });
 
     function toggleSelectAll(): void {
         if (selectedAll.value) {
-            selectedItems.value = [];
+            selectedItems.value = selectedItems.value.filter((item) => !includesItem(selectableItems.value, item));
             return;
         }
-        selectedItems.value = [...selectableItems.value];
+        selectedItems.value = [...selectedItems.value, ...selectableItems.value.filter((item) => !isSelected(item))];
     }
 
     watch(initialSelectedItems, (next) => {
-- 
2.43.0


From bfb8c8a913e39686aba45cfcd1a07b89533dcfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:54 +0000
Subject: [PATCH 17/99] fix: sort rows without a value like rows with an empty
 value

---
 .../components/vs-table/composables/table-sort-composable.ts  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
index f31b0d2..ff8ffbd 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
@@ -21,8 +21,8 @@ export function useTableSort(columns: Ref<VsTableColumnDef[]>) {
             return 0;
         }
         const sortKey = sortColumn.value.sortBy ?? sortColumn.value.key;
-        const aValue: unknown = objectUtil.get(aItem, sortKey);
-        const bValue: unknown = objectUtil.get(bItem, sortKey);
+        const aValue: unknown = objectUtil.get(aItem, sortKey) ?? null;
+        const bValue: unknown = objectUtil.get(bItem, sortKey) ?? null;
         const direction = sortType.value === VsTableSortType.ASCEND ? 1 : -1;
 
         return direction * compareUtil.compareValues(aValue, bValue);
-- 
2.43.0


From 9b1758e7f346e7d0625f89214427e64119960240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:54 +0000
Subject: [PATCH 18/99] fix: show an existing page when the pages or the page
 size of a table change

---
 .../vs-table/composables/table-composable.ts  | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
index 928af2e..287db33 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
@@ -144,6 +144,9 @@ export function useTable(
             return pagination.value.pageSizeOptions?.[0]?.value ?? DEFAULT_PAGE_SIZE;
         },
         set: (value: number) => {
+            if (value === pageSize.value) {
+                return;
+            }
             internalPageSize.value = value;
             cb?.updatePageSize(value);
             // reset page to 0 when page size changes
@@ -151,6 +154,13 @@ export function useTable(
         },
     });
 
+    watch(
+        () => rawPageSize?.value,
+        (value) => {
+            internalPageSize.value = value ?? Number.NaN;
+        },
+    );
+
     const tableCellBuilder = new TableCellBuilder(items.value, columns.value);
     const { anyExpandable, isExpanded, toggleExpand } = useTableExpand(expandable, items);
     const { sortType, sortColumn, compareRows, updateSortType } = useTableSort(columns);
@@ -177,6 +187,16 @@ export function useTable(
         totalItemsCount,
         serverMode,
     );
+    watch([page, totalPages], () => {
+        if (totalPages.value <= 0) {
+            return;
+        }
+        // stay on an existing page
+        const existingPage = Math.min(Math.max(page.value, 0), totalPages.value - 1);
+        if (page.value !== existingPage) {
+            page.value = existingPage;
+        }
+    });
     const preprocessedBodyCells = computed<VsTableBodyCell[][]>(() => {
         return rawBodyCells.value.filter(matchBySearch).sort(compareRows);
     });
-- 
2.43.0


From b089fd2028f73d5b31888f7b3c312d6690e9e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:00 +0000
Subject: [PATCH 19/99] fix: check a field again when its required, min or max
 setting changes

---
 .../composables/input-rules/input-rules-composable.ts  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index 7fb7208..cc0b7eb 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -56,5 +56,15 @@ export function useInputRules<T>(
     }
     watch(computedRules, checkRules, { deep: true });
 
+    // default rules depend on props such as required, min and max
+    watch(
+        () => ({ value: inputValue.value, results: defaultRules.value.map((rule) => rule(inputValue.value)).join() }),
+        (next, prev) => {
+            if (next.value === prev.value && next.results !== prev.results) {
+                checkRules();
+            }
+        },
+    );
+
     return { ruleMessages, checkRules };
 }
-- 
2.43.0


From e80feed4733d693e466476cf89dc2f8782e26e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:00 +0000
Subject: [PATCH 20/99] fix: accept zero and false as the value of a required
 select

---
 packages/vlossom/src/components/vs-select/vs-select-rules.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-select/vs-select-rules.ts b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
index cb81f96..7c5d6cb 100644
--- a/packages/vlossom/src/components/vs-select/vs-select-rules.ts
+++ b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
@@ -13,7 +13,7 @@ export function useSelectRules(
         if (multiple.value) {
             return !Array.isArray(inputValue) || inputValue.length === 0 ? 'required' : '';
         }
-        return !inputValue ? 'required' : '';
+        return inputValue === undefined || inputValue === null || inputValue === '' ? 'required' : '';
     }
 
     function maxCheck(inputValue: any): string {
-- 
2.43.0


From f375c13db92e4cea9189c86a6acda011eb83374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:00 +0000
Subject: [PATCH 21/99] fix: allow negative numbers in inputs without a minimum

---
 packages/vlossom/src/components/vs-input/VsInput.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-input/VsInput.vue b/packages/vlossom/src/components/vs-input/VsInput.vue
index 5f455c6..19edb67 100644
--- a/packages/vlossom/src/components/vs-input/VsInput.vue
+++ b/packages/vlossom/src/components/vs-input/VsInput.vue
@@ -87,7 +87,7 @@ export default defineComponent({
         ...getResponsiveProps(),
         ...getColorSchemeProps(),
         ...getStyleSetProps<VsInputStyleSet>(),
-        ...getMinMaxProps(componentName),
+        ...getMinMaxProps(componentName, { minDefault: Number.MIN_SAFE_INTEGER }),
         autocomplete: { type: Boolean, default: false },
         noClear: { type: Boolean, default: false },
         size: { type: String as PropType<Size>, default: 'md' },
-- 
2.43.0


From d91cac171f5d84b35965ffebab2cf57130f83efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:01 +0000
Subject: [PATCH 22/99] fix: restore a scroll-locked container when its last
 holder releases it

---
 .../scroll-lock/scroll-lock-composable.ts     | 51 +++++++++++++++----
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
index d8b7a9a..99ae9b0 100644
--- a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
+++ b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
@@ -7,16 +7,25 @@ interface ScrollLockState {
     paddingBottom: string;
 }
 
+interface ScrollLockRecord {
+    holders: number;
+    originalState: ScrollLockState | null;
+}
+
+// several holders can lock the same container
+const lockRecords = new WeakMap<HTMLElement, ScrollLockRecord>();
+
+function getLockRecord(element: HTMLElement): ScrollLockRecord {
+    const record = lockRecords.get(element) ?? { holders: 0, originalState: null };
+    lockRecords.set(element, record);
+    return record;
+}
+
 export function useScrollLock(container: string = 'body') {
     const containerElement: HTMLElement | null = document.querySelector(container);
 
     const isLocked = ref(false);
 
-    const originalState = ref<ScrollLockState>({
-        overflow: '',
-        paddingRight: '0',
-        paddingBottom: '0',
-    });
     const scrollbarWidth = '8px';
     const isNotTouchDevice = !(domUtil.isBrowser() && deviceUtil.isTouchDevice());
 
@@ -25,7 +34,12 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
-        originalState.value = {
+        const record = getLockRecord(containerElement);
+        // still locked, or not yet restored
+        if (record.originalState) {
+            return;
+        }
+        record.originalState = {
             overflow: containerElement.style.overflow,
             paddingRight: containerElement.style.paddingRight,
             paddingBottom: containerElement.style.paddingBottom,
@@ -54,9 +68,22 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
-        containerElement.style.overflow = originalState.value.overflow;
-        containerElement.style.paddingRight = originalState.value.paddingRight;
-        containerElement.style.paddingBottom = originalState.value.paddingBottom;
+        const record = getLockRecord(containerElement);
+        if (!record.originalState) {
+            return;
+        }
+        containerElement.style.overflow = record.originalState.overflow;
+        containerElement.style.paddingRight = record.originalState.paddingRight;
+        containerElement.style.paddingBottom = record.originalState.paddingBottom;
+        record.originalState = null;
+    }
+
+    function updateStyles() {
+        if (containerElement && getLockRecord(containerElement).holders > 0) {
+            applyScrollLockStyles();
+        } else {
+            restoreOriginalState();
+        }
     }
 
     function lock() {
@@ -66,7 +93,8 @@ export function useScrollLock(container: string = 'body') {
 
         saveOriginalState();
         isLocked.value = true;
-        requestAnimationFrame(applyScrollLockStyles);
+        getLockRecord(containerElement).holders++;
+        requestAnimationFrame(updateStyles);
     }
 
     function unlock() {
@@ -75,7 +103,8 @@ export function useScrollLock(container: string = 'body') {
         }
 
         isLocked.value = false;
-        requestAnimationFrame(restoreOriginalState);
+        getLockRecord(containerElement).holders--;
+        requestAnimationFrame(updateStyles);
     }
 
     return {
-- 
2.43.0


From 67586711137eb5153c190f5fa2fd6eedebbbab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:51 +0000
Subject: [PATCH 23/99] fix: offer select-all in a select without search

---
 .../vlossom/src/components/vs-select/VsSelect.vue     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index ee53eec..0fe52ec 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -53,9 +53,14 @@
                     :group-order
                     @click-item="selectOptionItem"
                 >
-                    <template #header v-if="isUsingSearch || $slots['options-header']">
-                        <div class="vs-select-search vs-select-focusable" data-focusable data-role="search">
-                            <vs-search-input v-if="isUsingSearch" ref="searchInputRef" v-bind="searchProps" :size />
+                    <template #header v-if="isUsingSearch || (multiple && selectAll) || $slots['options-header']">
+                        <div
+                            v-if="isUsingSearch"
+                            class="vs-select-search vs-select-focusable"
+                            data-focusable
+                            data-role="search"
+                        >
+                            <vs-search-input ref="searchInputRef" v-bind="searchProps" :size />
                         </div>
                         <div
                             v-if="multiple && selectAll"
-- 
2.43.0


From 3dbfc9ac221924548db8f4227bbe6e742e216218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:51 +0000
Subject: [PATCH 24/99] fix: keep the selected options when the options of a
 select are replaced

---
 .../src/components/vs-select/VsSelect.vue     | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 0fe52ec..d579beb 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -489,6 +489,22 @@ export default defineComponent({
             }, 250); // wait for the animation
         }
 
+        function updateSelectedOptionIds() {
+            const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
+            const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
+
+            selectedOptionIds.value = inputValueArray
+                .map((v: any) => {
+                    for (const option of computedOptions.value) {
+                        if (objectUtil.isEqual(option.value, v)) {
+                            return option.id;
+                        }
+                    }
+                    return null;
+                })
+                .filter((v: any) => v !== null);
+        }
+
         watch(isUsingSelect, () => {
             if (isUsingSelect.value) {
                 activateOverlayCallback();
@@ -528,23 +544,17 @@ export default defineComponent({
                     return;
                 }
 
-                const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
-                const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
-
-                selectedOptionIds.value = inputValueArray
-                    .map((v: any) => {
-                        for (const option of computedOptions.value) {
-                            if (objectUtil.isEqual(option.value, v)) {
-                                return option.id;
-                            }
-                        }
-                        return null;
-                    })
-                    .filter((v: any) => v !== null);
+                updateSelectedOptionIds();
             },
             { immediate: true },
         );
 
+        // ids depend on the position of the options
+        watch(computedOptions, () => {
+            inputValue.value = convertValue(inputValue.value);
+            updateSelectedOptionIds();
+        });
+
         watch([computedDisabled, computedReadonly], () => {
             closeOptions();
         });
-- 
2.43.0


From 75798b6e8474e78ae2099f1480326bde7fbb5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:51 +0000
Subject: [PATCH 25/99] fix: forget the keyboard position of a select when it
 closes

---
 packages/vlossom/src/components/vs-select/VsSelect.vue | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index d579beb..3b3742c 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -481,6 +481,7 @@ export default defineComponent({
             }
 
             removeMouseMoveListener();
+            updateFocusIndex(-1);
             isOpen.value = false;
             emit('close');
 
-- 
2.43.0


From c72b37f85bf7a4f161b98cb63abd88db580fe779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:33 +0000
Subject: [PATCH 26/99] fix: ignore a vlossom entry in package.json that is not
 a string

---
 packages/vlossom-mcp/src/internal/version/version-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/version/version-service.ts b/packages/vlossom-mcp/src/internal/version/version-service.ts
index f5ef601..46ad22b 100644
--- a/packages/vlossom-mcp/src/internal/version/version-service.ts
+++ b/packages/vlossom-mcp/src/internal/version/version-service.ts
@@ -31,7 +31,8 @@ function parsePackageJson(packageJson: string | undefined): Record<string, strin
 }
 
 export function extractVlossomVersionRange(packageJson: string | undefined): string | undefined {
-    return parsePackageJson(packageJson).vlossom;
+    const range: unknown = parsePackageJson(packageJson).vlossom;
+    return typeof range === 'string' ? range : undefined;
 }
 
 export function normalizeVersionRange(value: string | undefined): string | undefined {
-- 
2.43.0


From 7c27ba4b09eadcbcb6fbf1d6761491195e205bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:17 +0000
Subject: [PATCH 27/99] fix: keep the requested version details of each request
 when its ref is already known

---
 .../vlossom-mcp/src/services/github-registry-service.ts  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f367683..a3b0287 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -380,7 +380,14 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
 
     const cacheKey = context.detectedVersion ?? 'main';
     const cached = refCache.get(cacheKey);
-    if (cached) return { ...context, ...cached, warnings: [...context.warnings, ...cached.warnings] };
+    if (cached) {
+        return {
+            ...context,
+            resolvedRef: cached.resolvedRef,
+            fallbackRef: cached.fallbackRef,
+            warnings: [...context.warnings, ...cached.warnings],
+        };
+    }
 
     const refs = getCandidateRefs(context.detectedVersion);
     for (const ref of refs) {
-- 
2.43.0


From f0b3b82c66ae67b5588c40ed9703ffc2aea687e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:57 +0000
Subject: [PATCH 28/99] fix: do not take an unreachable repository for a
 missing version ref

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index a3b0287..177d04f 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -409,8 +409,9 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
                 warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
             });
             return resolved;
-        } catch {
+        } catch (error) {
             // try the next candidate ref
+            if (!isGitHubNotFound(error)) throw error;
         }
     }
 
-- 
2.43.0


From 2353785adc1c989a429bd98324ade5be54c46045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:57 +0000
Subject: [PATCH 29/99] fix: report a failed directory listing instead of
 remembering it as empty

---
 .../src/services/github-registry-service.ts       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 177d04f..09f9b5c 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -326,6 +326,15 @@ async function fetchRawOptional(path: string, ref: string): Promise<string> {
     }
 }
 
+async function fetchDirectoryOptional(path: string, ref: string): Promise<GitHubContentEntry[]> {
+    try {
+        return await fetchGitHubDirectory(path, ref);
+    } catch (error) {
+        if (isGitHubNotFound(error)) return [];
+        throw error;
+    }
+}
+
 function getComponentLookupKey(ref: string, name: string): string {
     return `${ref}:component:${name}`;
 }
@@ -538,7 +547,7 @@ export async function loadDirectives(versionContext: VersionContext): Promise<Di
     const cached = directiveCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch(() => []);
+    const entries = await fetchDirectoryOptional(DIRECTIVES_PATH, ref);
     const directives = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.startsWith('vs-')),
         GITHUB_FETCH_CONCURRENCY,
@@ -625,7 +634,7 @@ export async function loadComposables(versionContext: VersionContext): Promise<C
 
     const [publicDirs, entries] = await Promise.all([
         loadPublicComposableDirs(ref),
-        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch(() => []),
+        fetchDirectoryOptional(COMPOSABLES_PATH, ref),
     ]);
     const composables = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && !entry.name.includes('.') && entry.name !== '__tests__'),
@@ -698,7 +707,7 @@ export async function loadPlugins(versionContext: VersionContext): Promise<Vloss
     const cached = pluginCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch(() => []);
+    const entries = await fetchDirectoryOptional(PLUGINS_PATH, ref);
     const plugins = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.endsWith('-plugin')),
         GITHUB_FETCH_CONCURRENCY,
-- 
2.43.0


From 04211f114e5bf7cd114fe468ac05476efcec8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:57 +0000
Subject: [PATCH 30/99] fix: do not remember composables as internal when their
 index cannot be fetched

---
 .../vlossom-mcp/src/services/github-registry-service.ts    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 09f9b5c..12abd91 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -613,7 +613,7 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
     const cached = publicComposableDirsCache.get(ref);
     if (cached) return cached;
 
-    const promise = fetchRawCached(`${COMPOSABLES_PATH}/index.ts`, ref)
+    const promise = fetchRawOptional(`${COMPOSABLES_PATH}/index.ts`, ref)
         .then((content) => {
             const dirs = new Set<string>();
             for (const match of content.matchAll(/from\s+['"]\.\/([^/'"]+)\/[^'"]+['"]/g)) {
@@ -621,7 +621,10 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
             }
             return dirs;
         })
-        .catch(() => new Set<string>());
+        .catch((error: unknown) => {
+            publicComposableDirsCache.delete(ref);
+            throw error;
+        });
     publicComposableDirsCache.set(ref, promise);
     return promise;
 }
-- 
2.43.0


From 3c1d6a22424e8b299b978c9cc9b757121922b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:57 +0000
Subject: [PATCH 31/99] fix: report a failed token stylesheet instead of
 remembering its tokens as absent

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 12abd91..fe6cdfe 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -804,7 +804,7 @@ export async function loadCssTokens(versionContext: VersionContext): Promise<Css
     const files = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
     const map = new Map<string, CssToken>();
     for (const file of files) {
-        const css = await fetchRawCached(`${STYLES_PATH}/${file}`, ref).catch(() => '');
+        const css = await fetchRawOptional(`${STYLES_PATH}/${file}`, ref);
         for (const token of parseCssVars(css)) {
             const entry = map.get(token.name) ?? {
                 name: token.name,
-- 
2.43.0


From 8beb23073f3178f246dd9e5b2779fb1786b94fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:57 +0000
Subject: [PATCH 32/99] fix: ask for the setup example again after a failed
 fetch

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index fe6cdfe..f319a22 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -754,7 +754,10 @@ export async function loadSetupExample(versionContext: VersionContext): Promise<
             const fenced = extractFenceAfter(lines, setupIndex);
             return fenced || SETUP_EXAMPLE_FALLBACK;
         })
-        .catch(() => SETUP_EXAMPLE_FALLBACK);
+        .catch(() => {
+            setupExampleCache.delete(ref);
+            return SETUP_EXAMPLE_FALLBACK;
+        });
     setupExampleCache.set(ref, promise);
     return promise;
 }
-- 
2.43.0


From b4fafddf419d4e2d302f0c83f0731e9cd6d6fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:37 +0000
Subject: [PATCH 33/99] fix: do not read words of attribute values as
 attributes when validating

---
 .../vlossom-mcp/src/internal/validation/sfc-validator.ts     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index b549065..31424d9 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -66,12 +66,13 @@ function extractVlossomImportEntries(code: string): Array<{ name: string; line:
 
 function extractTags(code: string): Array<{ tag: string; body: string; line: number }> {
     const tags: Array<{ tag: string; body: string; line: number }> = [];
-    const pattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b([^>]*)>/g;
+    const pattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b((?:"[^"]*"|'[^']*'|[^'">])*)>/g;
     for (const match of code.matchAll(pattern)) {
         const rawTag = match[1] ?? '';
         tags.push({
             tag: rawTag.includes('-') ? kebabToPascalCase(rawTag) : rawTag,
-            body: match[2] ?? '',
+            // attribute values are not looked at: their words are no attributes
+            body: (match[2] ?? '').replace(/"[^"]*"|'[^']*'/g, '""'),
             line: lineNumber(code, match.index ?? 0),
         });
     }
-- 
2.43.0


From 6ee52fdfd0a646a222de231ccacca118a5c84ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:37 +0000
Subject: [PATCH 34/99] fix: validate bindings written in long form or with
 modifiers

---
 packages/vlossom-mcp/src/internal/validation/sfc-validator.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index 31424d9..81ca659 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -181,14 +181,14 @@ function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number)
     const propNames = new Set(meta.props.map((prop) => prop.name));
     const eventNames = new Set(meta.events.map((event) => event.name));
     const providedProps = new Set<string>();
-    const attrPattern = /(?:^|\s)([@:]?[\w:-]+)(?=\s*(?:=|\s|$))/g;
+    const attrPattern = /(?:^|\s)([@:]?[\w:-]+)(?:\.[\w-]+)*(?=\s*(?:=|\/|\s|$))/g;
 
     for (const match of body.matchAll(/\bv-model(?::([a-zA-Z0-9-]+))?/g)) {
         providedProps.add(match[1] ? kebabToCamelCase(match[1]) : 'modelValue');
     }
 
     for (const match of body.matchAll(attrPattern)) {
-        const raw = match[1] ?? '';
+        const raw = (match[1] ?? '').replace(/^v-on:/, '@').replace(/^v-bind:/, ':');
         if (!raw || raw.startsWith('#')) continue;
         if (raw.startsWith('@')) {
             const event = kebabToCamelCase(raw.slice(1));
-- 
2.43.0


From 6b64c93ac9cbddb68e5fca27b1a76284debc7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:37 +0000
Subject: [PATCH 35/99] fix: check slots against the component they are given
 to

---
 .../src/internal/validation/sfc-validator.ts  | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index 81ca659..de2a40b 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -250,25 +250,31 @@ function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number)
 
 async function validateSlots(code: string, versionContext: VersionContext): Promise<VlossomValidationIssue[]> {
     const issues: VlossomValidationIssue[] = [];
-    const componentBlockPattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b[^>]*>([\s\S]*?)<\/\s*\1\s*>/g;
-    for (const match of code.matchAll(componentBlockPattern)) {
-        const rawTag = match[1] ?? '';
-        const meta = await getComponentMeta(rawTag.includes('-') ? kebabToPascalCase(rawTag) : rawTag, versionContext);
+    const pattern =
+        /<template(?:\s+[\w:@.-]+(?:="[^"]*"|='[^']*')?)*?\s+(?:#|v-slot:)([\w-]+)|<(\/?)\s*([A-Z]\w*|[a-z]\w*-[\w-]*)\b((?:"[^"]*"|'[^']*'|[^'">])*)>/g;
+    // component tags open at the current position: a slot belongs to the innermost one
+    const open: string[] = [];
+    for (const match of code.matchAll(pattern)) {
+        const [, slot, closing, rawTag, attrs] = match;
+        if (rawTag) {
+            if (!closing && !attrs?.trimEnd().endsWith('/')) open.push(rawTag);
+            else if (closing && open.includes(rawTag)) open.splice(open.lastIndexOf(rawTag));
+            continue;
+        }
+        const owner = open[open.length - 1];
+        if (!slot || !owner || !/^(vs-|Vs[A-Z])/.test(owner)) continue;
+        const meta = await getComponentMeta(owner.includes('-') ? kebabToPascalCase(owner) : owner, versionContext);
         if (!meta) continue;
         const allowed = new Set(meta.slots.map((slot) => slot.name));
-        const body = match[2] ?? '';
-        for (const slotMatch of body.matchAll(/<template\s+#([\w-]+)/g)) {
-            const slot = slotMatch[1] ?? '';
-            if (!allowed.has(slot)) {
-                issues.push(
-                    issue(
-                        'SLOT_EXISTS',
-                        `${meta.name} does not declare slot '${slot}'.`,
-                        `Use one of: ${[...allowed].join(', ') || '(no declared slots)'}.`,
-                        lineNumber(code, (match.index ?? 0) + (slotMatch.index ?? 0)),
-                    ),
-                );
-            }
+        if (!allowed.has(slot)) {
+            issues.push(
+                issue(
+                    'SLOT_EXISTS',
+                    `${meta.name} does not declare slot '${slot}'.`,
+                    `Use one of: ${[...allowed].join(', ') || '(no declared slots)'}.`,
+                    lineNumber(code, match.index ?? 0),
+                ),
+            );
         }
     }
     return issues;
-- 
2.43.0


From a6f9dd4fad3d9d1fd925fb579eca24dd64f86a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:14 +0000
Subject: [PATCH 36/99] fix: accept the keyed slots a component documents

---
 packages/vlossom-mcp/src/internal/validation/sfc-validator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index de2a40b..b9a8f41 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -266,7 +266,9 @@ async function validateSlots(code: string, versionContext: VersionContext): Prom
         const meta = await getComponentMeta(owner.includes('-') ? kebabToPascalCase(owner) : owner, versionContext);
         if (!meta) continue;
         const allowed = new Set(meta.slots.map((slot) => slot.name));
-        if (!allowed.has(slot)) {
+        // a documented name such as body-[key] stands for one slot per key
+        const keyed = [...allowed].some((name) => name.endsWith(']') && slot.startsWith(name.replace(/\[.+/, '')));
+        if (!allowed.has(slot) && !keyed) {
             issues.push(
                 issue(
                     'SLOT_EXISTS',
-- 
2.43.0


From 6e5c4e84ebefdb2f52b7f9de3acc44f51cf362ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:14 +0000
Subject: [PATCH 37/99] fix: do not take type arguments for component tags when
 validating

---
 packages/vlossom-mcp/src/internal/validation/sfc-validator.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index b9a8f41..4da035e 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -66,7 +66,8 @@ function extractVlossomImportEntries(code: string): Array<{ name: string; line:
 
 function extractTags(code: string): Array<{ tag: string; body: string; line: number }> {
     const tags: Array<{ tag: string; body: string; line: number }> = [];
-    const pattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b((?:"[^"]*"|'[^']*'|[^'">])*)>/g;
+    // a type argument such as ref<VsFormRef>() is no tag
+    const pattern = /(?<!\w)<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b((?:"[^"]*"|'[^']*'|[^'">])*)>/g;
     for (const match of code.matchAll(pattern)) {
         const rawTag = match[1] ?? '';
         tags.push({
-- 
2.43.0


From 051d4ffc9ef173b2bb926f32db1ce781093efd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:22 +0000
Subject: [PATCH 38/99] fix: show a group once when its name is declared twice

---
 .../vlossom/src/components/vs-grouped-list/VsGroupedList.vue    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-grouped-list/VsGroupedList.vue b/packages/vlossom/src/components/vs-grouped-list/VsGroupedList.vue
index 40d2630..c6c5f4e 100644
--- a/packages/vlossom/src/components/vs-grouped-list/VsGroupedList.vue
+++ b/packages/vlossom/src/components/vs-grouped-list/VsGroupedList.vue
@@ -130,7 +130,7 @@ export default defineComponent({
                 // groupOrder가 있으면 그 순서대로, 나머지는 순서대로
                 const orderedSet = new Set<string>();
                 for (const groupName of groupOrder.value) {
-                    if (allGroups.includes(groupName)) {
+                    if (allGroups.includes(groupName) && !orderedSet.has(groupName)) {
                         orderedSet.add(groupName);
                         orderedGroups.push(groupName);
                     }
-- 
2.43.0


From 73ad014b2cbdfd13003226c99e5b301f5b436476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:44 +0000
Subject: [PATCH 39/99] fix: bind the value of a radio that starts checked

---
 packages/vlossom/src/components/vs-radio/VsRadio.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index 238e632..54504e1 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -103,7 +103,7 @@ export default defineComponent({
 
         const { componentStyleSet, styleSetVariables } = useStyleSet<VsRadioStyleSet>(componentName, styleSet);
 
-        const inputValue = ref(checked.value ? radioValue.value : modelValue.value);
+        const inputValue = ref(modelValue.value);
 
         const isChecked = computed(() => {
             return objectUtil.isEqual(inputValue.value, radioValue.value);
-- 
2.43.0


From f00481353f54aeb726cb44a17d17c8f493ac5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:44 +0000
Subject: [PATCH 40/99] fix: keep other changes of a shared value when a change
 guard answers later

---
 packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue | 7 ++++---
 packages/vlossom/src/components/vs-switch/VsSwitch.vue     | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
index c304e62..dc452eb 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
@@ -208,17 +208,18 @@ export default defineComponent({
                 return;
             }
 
-            const toValue = getUpdatedValue(!isChecked.value);
+            const toChecked = !isChecked.value;
 
             const beforeChangeFn = beforeChange.value;
             if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, toValue, trueValue.value);
+                const result = await beforeChangeFn(inputValue.value, getUpdatedValue(toChecked), trueValue.value);
                 if (!result) {
                     return;
                 }
             }
 
-            inputValue.value = toValue;
+            // the value may have changed while the guard was deciding
+            inputValue.value = getUpdatedValue(toChecked);
             emit('toggle', isChecked.value, e);
         }
 
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index 66b6449..0e76384 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -205,17 +205,18 @@ export default defineComponent({
                 return;
             }
 
-            const toValue = getUpdatedValue(!isChecked.value);
+            const toChecked = !isChecked.value;
 
             const beforeChangeFn = beforeChange.value;
             if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, toValue);
+                const result = await beforeChangeFn(inputValue.value, getUpdatedValue(toChecked));
                 if (!result) {
                     return;
                 }
             }
 
-            inputValue.value = toValue;
+            // the value may have changed while the guard was deciding
+            inputValue.value = getUpdatedValue(toChecked);
         }
 
         function onFocus(e: FocusEvent) {
-- 
2.43.0


From d0c505c03271712f4c0b6bce612af7d064819b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:46 +0000
Subject: [PATCH 41/99] fix: show a switch or radio as it was when its change
 guard refuses

---
 .../vlossom/src/components/vs-radio/VsRadio.vue  | 16 ++++++++++++++++
 .../src/components/vs-switch/VsSwitch.vue        |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index 54504e1..261e982 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -171,6 +171,21 @@ export default defineComponent({
             'vs-readonly': computedReadonly.value,
         }));
 
+        // the browser has already checked this element, and unchecked the others of its name
+        function restoreChecked() {
+            if (!radioRef.value) {
+                return;
+            }
+            radioRef.value.checked = isChecked.value;
+
+            const value = stringUtil.convertToString(inputValue.value);
+            document.querySelectorAll<HTMLInputElement>(`input[name="${name.value}"]`).forEach((el) => {
+                if (name.value && el.type === 'radio' && el.value === value) {
+                    el.checked = true;
+                }
+            });
+        }
+
         async function onToggle(event: Event) {
             if (computedDisabled.value || computedReadonly.value) {
                 return;
@@ -181,6 +196,7 @@ export default defineComponent({
             if (beforeChangeFn) {
                 const result = await beforeChangeFn(inputValue.value, radioValue.value, radioValue.value);
                 if (!result) {
+                    restoreChecked();
                     return;
                 }
             }
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index 0e76384..a570800 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -211,6 +211,9 @@ export default defineComponent({
             if (beforeChangeFn) {
                 const result = await beforeChangeFn(inputValue.value, getUpdatedValue(toChecked));
                 if (!result) {
+                    if (switchRef.value) {
+                        switchRef.value.checked = isChecked.value;
+                    }
                     return;
                 }
             }
-- 
2.43.0


From ab142fee29529f79f08c7118ad56b3b134aa148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:36 +0000
Subject: [PATCH 42/99] fix: release layout space when a bar or drawer leaves,
 moves or opts out

---
 .../src/components/vs-drawer/VsDrawer.vue     | 19 +++++++---
 .../src/components/vs-footer/VsFooter.vue     | 18 +++++++---
 .../src/components/vs-header/VsHeader.vue     | 18 +++++++---
 packages/vlossom/src/stores/layout-store.ts   | 36 +++++++++++++++++++
 4 files changed, 76 insertions(+), 15 deletions(-)

diff --git a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
index 40e7576..8fd61e0 100644
--- a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
+++ b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
@@ -45,7 +45,6 @@ import {
     toRefs,
     useTemplateRef,
     watch,
-    watchEffect,
     type ComputedRef,
     type PropType,
     type TemplateRef,
@@ -56,6 +55,7 @@ import {
     OVERLAY_CLOSE,
     OVERLAY_OPEN,
     VsComponent,
+    type DrawerLayout,
     type DrawerPlacement,
     type FocusableRef,
     type SizeProp,
@@ -195,17 +195,26 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
+        const drawerLayout: ComputedRef<DrawerLayout | null> = computed(() => {
             if (!isLayoutChild.value) {
-                return;
+                return null;
             }
-            layoutStore.setDrawer({
+            return {
                 isOpen: isOpen.value,
                 placement: placement.value,
                 size: drawerSize.value || DRAWER_SIZE.sm,
                 pushContainer: pushContainer.value,
-            });
+            };
         });
+        watch(
+            drawerLayout,
+            (o, _, onCleanup) => {
+                if (o) {
+                    onCleanup(layoutStore.holdDrawer(o));
+                }
+            },
+            { immediate: true },
+        );
 
         const layoutStyles = computed(() => {
             if (!isLayoutChild.value) {
diff --git a/packages/vlossom/src/components/vs-footer/VsFooter.vue b/packages/vlossom/src/components/vs-footer/VsFooter.vue
index 7390dad..18a77b8 100644
--- a/packages/vlossom/src/components/vs-footer/VsFooter.vue
+++ b/packages/vlossom/src/components/vs-footer/VsFooter.vue
@@ -5,7 +5,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, watch } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -62,16 +62,24 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
+        const footerLayout: ComputedRef<BarLayout | null> = computed(() => {
             if (!isLayoutChild.value) {
-                return;
+                return null;
             }
-            const footerLayout: BarLayout = {
+            return {
                 position: position.value || 'relative',
                 height: (componentStyleSet.value.height as string) || '3rem',
             };
-            layoutStore.setFooter(footerLayout);
         });
+        watch(
+            footerLayout,
+            (o, _, onCleanup) => {
+                if (o) {
+                    onCleanup(layoutStore.holdFooter(o));
+                }
+            },
+            { immediate: true },
+        );
 
         return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
diff --git a/packages/vlossom/src/components/vs-header/VsHeader.vue b/packages/vlossom/src/components/vs-header/VsHeader.vue
index f16268f..e92bcbd 100644
--- a/packages/vlossom/src/components/vs-header/VsHeader.vue
+++ b/packages/vlossom/src/components/vs-header/VsHeader.vue
@@ -5,7 +5,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, watch } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -62,16 +62,24 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
+        const headerLayout: ComputedRef<BarLayout | null> = computed(() => {
             if (!isLayoutChild.value) {
-                return;
+                return null;
             }
-            const headerLayout: BarLayout = {
+            return {
                 position: position.value || 'relative',
                 height: (componentStyleSet.value.height as string) || '3rem',
             };
-            layoutStore.setHeader(headerLayout);
         });
+        watch(
+            headerLayout,
+            (o, _, onCleanup) => {
+                if (o) {
+                    onCleanup(layoutStore.holdHeader(o));
+                }
+            },
+            { immediate: true },
+        );
 
         return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
diff --git a/packages/vlossom/src/stores/layout-store.ts b/packages/vlossom/src/stores/layout-store.ts
index 2c5a2ba..31db33f 100644
--- a/packages/vlossom/src/stores/layout-store.ts
+++ b/packages/vlossom/src/stores/layout-store.ts
@@ -12,6 +12,11 @@ export class LayoutStore {
         bottom: { isOpen: false, pushContainer: false, placement: 'bottom', size: '' },
     });
 
+    // what the components currently in the layout ask for, latest first
+    private headers: BarLayout[] = [];
+    private footers: BarLayout[] = [];
+    private panels: DrawerLayout[] = [];
+
     public static getDefaultLayoutStore(): LayoutStore {
         return new LayoutStore();
     }
@@ -26,6 +31,12 @@ export class LayoutStore {
         this._header.value = layout;
     }
 
+    /** Keeps the layout until the returned function is called */
+    public holdHeader(layout: BarLayout): () => void {
+        const apply = () => this.setHeader(this.headers[0] ?? { position: 'relative', height: '' });
+        return this.hold(this.headers, layout, apply);
+    }
+
     public footer = computed(() => this._footer.value);
 
     public setFooter(layout: BarLayout) {
@@ -36,6 +47,11 @@ export class LayoutStore {
         this._footer.value = layout;
     }
 
+    public holdFooter(layout: BarLayout): () => void {
+        const apply = () => this.setFooter(this.footers[0] ?? { position: 'relative', height: '' });
+        return this.hold(this.footers, layout, apply);
+    }
+
     public drawers = computed(() => this._drawers.value);
 
     public setDrawers(layouts: DrawerLayouts) {
@@ -54,4 +70,24 @@ export class LayoutStore {
             [layout.placement]: layout,
         };
     }
+
+    public holdDrawer(layout: DrawerLayout): () => void {
+        const { placement } = layout;
+        const apply = () => {
+            const sameSide = this.panels.filter((panel) => panel.placement === placement);
+            const pushing = sameSide.filter((panel) => panel.isOpen && panel.pushContainer);
+            const empty = { isOpen: false, pushContainer: false, placement, size: '' };
+            this.setDrawer(pushing[0] ?? sameSide[0] ?? empty);
+        };
+        return this.hold(this.panels, layout, apply);
+    }
+
+    private hold<T>(list: T[], layout: T, apply: () => void): () => void {
+        list.unshift(layout);
+        apply();
+        return () => {
+            list.splice(list.indexOf(layout), 1);
+            apply();
+        };
+    }
 }
-- 
2.43.0


From 5afe759db4e905ac389cd885a67ebaf2368a947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:01 +0000
Subject: [PATCH 43/99] fix: keep Tab inside a focus trap whatever becomes of
 its elements

---
 .../components/vs-focus-trap/VsFocusTrap.vue  | 48 ++++++++-----------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
index 65e602f..c25df46 100644
--- a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
+++ b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
@@ -39,8 +39,7 @@ export default defineComponent({
 
         const previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
 
-        let firstFocusable: HTMLElement | null = null;
-        let lastFocusable: HTMLElement | null = null;
+        let focusables: HTMLElement[] = [];
 
         function cycleTabKey(event: KeyboardEvent) {
             if (event.key !== 'Tab') {
@@ -49,32 +48,24 @@ export default defineComponent({
 
             catchFocusables();
 
-            if (!firstFocusable || !lastFocusable) {
+            const active = document.activeElement;
+            if (!focusables.length || !active) {
                 return;
             }
 
-            if (event.shiftKey && document.activeElement === firstFocusable) {
+            const direction = event.shiftKey ? Node.DOCUMENT_POSITION_PRECEDING : Node.DOCUMENT_POSITION_FOLLOWING;
+            const hasNext = focusables.some((o) => o !== active && active.compareDocumentPosition(o) & direction);
+            if (!hasNext) {
                 event.preventDefault();
-                lastFocusable.focus();
-            } else if (!event.shiftKey && document.activeElement === lastFocusable) {
-                event.preventDefault();
-                firstFocusable.focus();
+                focusables[event.shiftKey ? focusables.length - 1 : 0].focus();
             }
         }
 
         function activateCycle() {
-            if (!firstFocusable || !lastFocusable) {
-                return;
-            }
-
             focusTrapRef.value?.addEventListener('keydown', cycleTabKey);
         }
 
         function deactivateCycle() {
-            if (!firstFocusable || !lastFocusable) {
-                return;
-            }
-
             focusTrapRef.value?.removeEventListener('keydown', cycleTabKey);
         }
 
@@ -83,23 +74,24 @@ export default defineComponent({
                 return;
             }
 
-            const focusables = wrapperElement.value.querySelectorAll<HTMLElement>(
+            const candidates = wrapperElement.value.querySelectorAll<HTMLElement>(
                 `button:not([tabindex="-1"]), [href]:not([tabindex="-1"]), input:not([tabindex="-1"]),
                 select:not([tabindex="-1"]), textarea:not([tabindex="-1"]), [tabindex]:not([tabindex="-1"])`,
             );
 
-            const shownFocusables = Array.from(focusables).filter(
-                (focusable) => focusable.style.display !== 'none' || !focusable.hasAttribute('disabled'),
-            );
+            focusables = Array.from(candidates).filter((o) => !o.matches(':disabled') && isShown(o));
+        }
 
-            if (!shownFocusables.length) {
-                firstFocusable = null;
-                lastFocusable = null;
-                return;
+        function isShown(element: HTMLElement) {
+            if (getComputedStyle(element).visibility === 'hidden') {
+                return false;
             }
-
-            firstFocusable = shownFocusables[0];
-            lastFocusable = shownFocusables[shownFocusables.length - 1];
+            for (let o: HTMLElement | null = element; o && o !== focusTrapRef.value; o = o.parentElement) {
+                if (getComputedStyle(o).display === 'none') {
+                    return false;
+                }
+            }
+            return true;
         }
 
         function focus() {
@@ -118,7 +110,6 @@ export default defineComponent({
         }
 
         onMounted(() => {
-            catchFocusables();
             if (!disabled.value) {
                 activateCycle();
             }
@@ -129,7 +120,6 @@ export default defineComponent({
             if (newVal) {
                 deactivateCycle();
             } else {
-                catchFocusables();
                 activateCycle();
             }
         });
-- 
2.43.0


From a8ffdf7e6116f5e50e566b690d9ae5b8b47a710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:47 +0000
Subject: [PATCH 44/99] fix: return focus to where it was when the focus trap
 of a drawer was entered

---
 .../components/vs-focus-trap/VsFocusTrap.vue    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
index c25df46..025d32d 100644
--- a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
+++ b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
@@ -37,8 +37,9 @@ export default defineComponent({
             return wrapperRef.value instanceof HTMLElement ? wrapperRef.value : (wrapperRef.value.$el as HTMLElement);
         });
 
-        const previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
+        let previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
 
+        let isFocusTaken = false;
         let focusables: HTMLElement[] = [];
 
         function cycleTabKey(event: KeyboardEvent) {
@@ -94,19 +95,27 @@ export default defineComponent({
             return true;
         }
 
+        function hasFocus() {
+            return document.activeElement?.closest('.vs-focus-trap') === focusTrapRef.value;
+        }
+
         function focus() {
+            if (!hasFocus()) {
+                previousFocused = document.activeElement as HTMLElement;
+            }
             nextTick(() => {
-                const isChildOfFocusTrap = document.activeElement?.closest('.vs-focus-trap') === focusTrapRef.value;
-                if (!isChildOfFocusTrap) {
+                if (!hasFocus()) {
                     focusTrapAnchorRef.value?.focus({ preventScroll: true });
                 }
+                isFocusTaken = hasFocus();
             });
         }
 
         function blur() {
-            if (previousFocused?.focus) {
+            if (isFocusTaken && previousFocused?.focus) {
                 previousFocused.focus();
             }
+            isFocusTaken = false;
         }
 
         onMounted(() => {
-- 
2.43.0


From 123061590b7355fba5f08986efccce96d76b6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:21 +0000
Subject: [PATCH 45/99] fix: leave Escape to others while a tooltip is disabled

---
 packages/vlossom/src/components/vs-tooltip/VsTooltip.vue | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
index 741d29b..65180a5 100644
--- a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
+++ b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
@@ -68,7 +68,7 @@ export default defineComponent({
         escClose: { type: Boolean, default: true },
     },
     setup(props) {
-        const { colorScheme, styleSet, target, clickable, contentsHover, escClose } = toRefs(props);
+        const { colorScheme, styleSet, target, clickable, contentsHover, escClose, disabled } = toRefs(props);
 
         const id = ref(stringUtil.createID());
         const triggerClass = computed(() => `vs-tooltip-trigger-${id.value}`);
@@ -139,11 +139,13 @@ export default defineComponent({
 
         const { activate, deactivate } = useOverlayCallback(id, computedCallbacks);
 
-        watch(computedShow, (show) => {
-            if (show) {
+        watch([computedShow, disabled], ([show, isDisabled]) => {
+            if (show && !isDisabled) {
                 activate();
             } else {
                 deactivate();
+            }
+            if (!show) {
                 tooltipOver.value = false;
             }
         });
-- 
2.43.0


From 5600dd286315e53e45267518938bad62488d0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:37 +0000
Subject: [PATCH 46/99] fix: end the pointer's way to tooltip contents when it
 is due

---
 .../src/components/vs-tooltip/VsTooltip.vue   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
index 65180a5..cd14b5a 100644
--- a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
+++ b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
@@ -107,9 +107,7 @@ export default defineComponent({
                 return false;
             },
             set(value: boolean) {
-                if (value) {
-                    activate();
-                } else {
+                if (!value) {
                     deactivate();
                     tooltipOver.value = false;
                 }
@@ -130,6 +128,7 @@ export default defineComponent({
                     } else {
                         tooltipOver.value = false;
                         triggerOver.value = false;
+                        isMovingOut.value = false;
                     }
 
                     deactivate();
@@ -150,13 +149,20 @@ export default defineComponent({
             }
         });
 
-        watch(isMovingOut, () => {
-            if (isMovingOut.value) {
-                setTimeout(() => {
-                    isMovingOut.value = false;
-                }, 100);
+        let movingOutTimer: ReturnType<typeof setTimeout> | undefined;
+
+        function startMovingOut() {
+            // a tooltip closed before is not opened by leaving
+            if (!contentsHover.value || !computedShow.value) {
+                return;
             }
-        });
+
+            isMovingOut.value = true;
+            clearTimeout(movingOutTimer);
+            movingOutTimer = setTimeout(() => {
+                isMovingOut.value = false;
+            }, 100);
+        }
 
         watch([triggerOver, tooltipOver, isMovingOut], () => {
             if (!triggerOver.value && !tooltipOver.value && !isMovingOut.value) {
@@ -169,9 +175,7 @@ export default defineComponent({
         }
 
         function onTriggerLeave() {
-            if (contentsHover.value) {
-                isMovingOut.value = true;
-            }
+            startMovingOut();
             triggerOver.value = false;
         }
 
@@ -188,9 +192,7 @@ export default defineComponent({
         }
 
         function onTooltipLeave() {
-            if (contentsHover.value) {
-                isMovingOut.value = true;
-            }
+            startMovingOut();
             tooltipOver.value = false;
         }
 
@@ -226,6 +228,7 @@ export default defineComponent({
 
         onBeforeUnmount(() => {
             removeTargetEventListeners();
+            clearTimeout(movingOutTimer);
         });
 
         return {
-- 
2.43.0


From ef3d8fa2f496fc69190541b46baa85fddb79155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:14 +0000
Subject: [PATCH 47/99] fix: place a floating panel where its target comes to
 rest

---
 .../composables/positioning/positioning-composable.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/composables/positioning/positioning-composable.ts b/packages/vlossom/src/composables/positioning/positioning-composable.ts
index 67620d8..972046e 100644
--- a/packages/vlossom/src/composables/positioning/positioning-composable.ts
+++ b/packages/vlossom/src/composables/positioning/positioning-composable.ts
@@ -124,10 +124,13 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
                 attachment.value.style.position = 'absolute';
                 computePosition(attachInfo);
 
-                throttledComputePosition = functionUtil.throttle(
-                    { interval: 30 },
-                    computePosition.bind(null, attachInfo),
-                );
+                const compute = computePosition.bind(null, attachInfo);
+                const throttled = functionUtil.throttle({ interval: 30 }, compute);
+                const finish = functionUtil.debounce({ delay: 30 }, compute);
+                throttledComputePosition = () => {
+                    throttled();
+                    finish();
+                };
 
                 const hasResizeObserver = window && window.ResizeObserver !== undefined;
                 if (hasResizeObserver) {
-- 
2.43.0


From 963cc3ac380ce7e8e35e802af35354f89253a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:58 +0000
Subject: [PATCH 48/99] fix: show a floating panel whose flag is set from the
 start

---
 packages/vlossom/src/components/vs-floating/VsFloating.vue | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/components/vs-floating/VsFloating.vue b/packages/vlossom/src/components/vs-floating/VsFloating.vue
index 07baf78..2456633 100644
--- a/packages/vlossom/src/components/vs-floating/VsFloating.vue
+++ b/packages/vlossom/src/components/vs-floating/VsFloating.vue
@@ -15,6 +15,7 @@ import {
     watch,
     ref,
     onBeforeMount,
+    onMounted,
     onBeforeUnmount,
     type TemplateRef,
 } from 'vue';
@@ -129,6 +130,12 @@ export default defineComponent({
             appendOverlayDom(document.body, overlayId.value, { zIndex: 10000 });
         });
 
+        onMounted(() => {
+            if (modelValue.value && !disabled.value) {
+                showFloating();
+            }
+        });
+
         onBeforeUnmount(() => {
             cleanUpTimer();
             hideFloating();
-- 
2.43.0


From 438846d1121fff4cec5bd11f59fb6aad7f7af3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:49 +0000
Subject: [PATCH 49/99] fix: open a modal whose flag is set from the start

---
 packages/vlossom/src/components/vs-modal/VsModal.vue | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index 0176899..1c20a23 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -1,5 +1,5 @@
 <script lang="ts">
-import { defineComponent, ref, toRefs, watch, computed, type Component, type PropType } from 'vue';
+import { defineComponent, ref, toRefs, watch, computed, onBeforeMount, type Component, type PropType } from 'vue';
 import { VsComponent, OVERLAY_CLOSE, type SizeProp } from '@/declaration';
 import { getColorSchemeProps, getStyleSetProps } from '@/props';
 import { getOverlayProps } from '@/props';
@@ -32,7 +32,7 @@ export default defineComponent({
         const $vs = useVlossom();
         const { modelValue, container, callbacks } = toRefs(props);
 
-        const isOpen = ref(modelValue.value);
+        const isOpen = ref(false);
         const modalId = ref('');
 
         const modalOptions = computed(() => {
@@ -71,6 +71,10 @@ export default defineComponent({
             }
         });
 
+        onBeforeMount(() => {
+            isOpen.value = modelValue.value;
+        });
+
         return () => null;
     },
 });
-- 
2.43.0


From d00a7b6516d9689d03cdb2d38c4dd2607828a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:59:10 +0000
Subject: [PATCH 50/99] fix: close a bound modal that is removed

---
 packages/vlossom/src/components/vs-modal/VsModal.vue | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index 1c20a23..569f4e4 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -1,10 +1,11 @@
 <script lang="ts">
-import { defineComponent, ref, toRefs, watch, computed, onBeforeMount, type Component, type PropType } from 'vue';
+import { defineComponent, ref, toRefs, watch, computed, onBeforeMount, onBeforeUnmount, type Component, type PropType } from 'vue';
 import { VsComponent, OVERLAY_CLOSE, type SizeProp } from '@/declaration';
 import { getColorSchemeProps, getStyleSetProps } from '@/props';
 import { getOverlayProps } from '@/props';
 import type { VsModalNodeStyleSet } from './types';
 import { useVlossom } from '@/framework';
+import { useModalContainerStore } from '@/stores';
 
 const componentName = VsComponent.VsModal;
 export default defineComponent({
@@ -30,6 +31,7 @@ export default defineComponent({
     inheritAttrs: false,
     setup(props, { emit, slots }) {
         const $vs = useVlossom();
+        const modalStore = useModalContainerStore();
         const { modelValue, container, callbacks } = toRefs(props);
 
         const isOpen = ref(false);
@@ -75,6 +77,10 @@ export default defineComponent({
             isOpen.value = modelValue.value;
         });
 
+        onBeforeUnmount(() => {
+            modalStore.remove(container.value, modalId.value);
+        });
+
         return () => null;
     },
 });
-- 
2.43.0


From df472b7ae65c76cbe5f795054c8df0f3a8f6c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:42 +0000
Subject: [PATCH 51/99] fix: keep a bound modal closed when an outdated guard
 refuses

---
 packages/vlossom/src/components/vs-modal/VsModal.vue | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index 569f4e4..2969211 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -54,8 +54,10 @@ export default defineComponent({
                 return;
             }
             if (!o) {
-                const closed = await $vs.modal.closeWithId(container.value, modalId.value);
-                if (!closed) {
+                const id = modalId.value;
+                const closed = await $vs.modal.closeWithId(container.value, id);
+                // the modal may have been closed otherwise in the meantime
+                if (!closed && isOpen.value && id === modalId.value) {
                     emit('update:modelValue', true);
                 }
                 return;
-- 
2.43.0


From d73b73084c86c579cc8c2bb3b70a7e4092780d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:26 +0000
Subject: [PATCH 52/99] fix: apply a late close decision only to the modal it
 was asked for

---
 packages/vlossom/src/components/vs-modal/VsModal.vue      | 8 +++++---
 packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts | 7 +++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index 2969211..ef523b0 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -36,6 +36,7 @@ export default defineComponent({
 
         const isOpen = ref(false);
         const modalId = ref('');
+        let openings = 0;
 
         const modalOptions = computed(() => {
             return {
@@ -54,10 +55,10 @@ export default defineComponent({
                 return;
             }
             if (!o) {
-                const id = modalId.value;
-                const closed = await $vs.modal.closeWithId(container.value, id);
+                const current = openings;
+                const closed = await $vs.modal.closeWithId(container.value, modalId.value);
                 // the modal may have been closed otherwise in the meantime
-                if (!closed && isOpen.value && id === modalId.value) {
+                if (!closed && isOpen.value && current === openings) {
                     emit('update:modelValue', true);
                 }
                 return;
@@ -70,6 +71,7 @@ export default defineComponent({
             emit(o ? 'open' : 'close');
 
             if (o) {
+                openings += 1;
                 const modalComponent: Component = () => slots.default?.() ?? null;
                 modalId.value = $vs.modal.open(modalComponent, modalOptions.value);
             }
diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 568a526..054f911 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -59,6 +59,10 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
+            if (!modalStore.get(container).includes(last)) {
+                // closed otherwise in the meantime, another modal may have its id by now
+                return true;
+            }
             modalStore.remove(container, last.id);
 
             overlayCallbackStore.remove(last.id);
@@ -74,6 +78,9 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
+            if (!modalStore.get(container).includes(target)) {
+                return true;
+            }
             modalStore.remove(container, id);
 
             overlayCallbackStore.remove(id);
-- 
2.43.0


From e561e93f0f5886bfbdaac813e5f3b369e8bb0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:13:12 +0000
Subject: [PATCH 53/99] fix: do not move a reopened floating panel to where it
 was asked before

---
 .../src/composables/positioning/positioning-composable.ts      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vlossom/src/composables/positioning/positioning-composable.ts b/packages/vlossom/src/composables/positioning/positioning-composable.ts
index 972046e..a8f6fbc 100644
--- a/packages/vlossom/src/composables/positioning/positioning-composable.ts
+++ b/packages/vlossom/src/composables/positioning/positioning-composable.ts
@@ -13,6 +13,7 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
     const isVisible = ref(false);
     const computedPlacement: Ref<Placement | null> = ref(null);
     let throttledComputePosition: ((...args: any) => any) | null = null;
+    let cancelComputePosition = () => {};
     let resizeObserver: ResizeObserver | null = null;
 
     function getX(align: Alignment, left: number, right: number, width: number, attachmentWidth: number) {
@@ -127,6 +128,7 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
                 const compute = computePosition.bind(null, attachInfo);
                 const throttled = functionUtil.throttle({ interval: 30 }, compute);
                 const finish = functionUtil.debounce({ delay: 30 }, compute);
+                cancelComputePosition = () => finish.cancel();
                 throttledComputePosition = () => {
                     throttled();
                     finish();
@@ -153,6 +155,7 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
         }
 
         if (throttledComputePosition) {
+            cancelComputePosition();
             resizeObserver?.disconnect();
             document.removeEventListener('scroll', throttledComputePosition, true);
             window.removeEventListener('resize', throttledComputePosition, true);
-- 
2.43.0


From efedbc77c4495b7711f718f7ee0d8f1f0f984788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:14 +0000
Subject: [PATCH 54/99] fix: keep the chips of a disabled or read-only select

---
 .../components/vs-select/composables/select-value-composable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
index f2b112a..c9e850d 100644
--- a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
+++ b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
@@ -57,7 +57,7 @@ export function useSelectValue({
     }
 
     function deselectOption(optionId: string) {
-        if (!isSelected(optionId)) {
+        if (isSelectUnavailable.value || !isSelected(optionId)) {
             return;
         }
 
-- 
2.43.0


From cd610a583f1c489ac3e0bd905b92a9b6542b5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:00:11 +0000
Subject: [PATCH 55/99] fix: show the modified text when typing leaves the
 value as it was

---
 packages/vlossom/src/components/vs-input/VsInput.vue       | 5 +++++
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/vlossom/src/components/vs-input/VsInput.vue b/packages/vlossom/src/components/vs-input/VsInput.vue
index 19edb67..b67d6eb 100644
--- a/packages/vlossom/src/components/vs-input/VsInput.vue
+++ b/packages/vlossom/src/components/vs-input/VsInput.vue
@@ -207,6 +207,11 @@ export default defineComponent({
             const target = event.target as HTMLInputElement;
             const value = target.value || '';
             inputValue.value = convertValue(value);
+
+            // nothing is rendered when the modified text equals the current value
+            if (!isNumberInput.value && target.value !== inputValue.value) {
+                target.value = `${inputValue.value}`;
+            }
         }
 
         function focus() {
diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index 469cefe..37c4673 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -162,6 +162,11 @@ export default defineComponent({
             const target = event.target as HTMLTextAreaElement;
             const value = target.value || '';
             inputValue.value = convertValue(value);
+
+            // nothing is rendered when the modified text equals the current value
+            if (target.value !== inputValue.value) {
+                target.value = inputValue.value;
+            }
         }
 
         function onFocus(e: FocusEvent) {
-- 
2.43.0


From 823ec579cbb117ebcd9ed2e1264aea3b00190a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:18:57 +0000
Subject: [PATCH 56/99] fix: end the drag highlight of a file field disabled in
 the middle of a drag

---
 packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index a22ea4b..1292c7e 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -230,7 +230,7 @@ export default defineComponent({
         const hasValue = computed(() => inputValue.value.length > 0);
 
         function setDragging(value: boolean) {
-            if (computedDisabled.value || computedReadonly.value) {
+            if (value && (computedDisabled.value || computedReadonly.value)) {
                 return;
             }
 
@@ -305,13 +305,13 @@ export default defineComponent({
 
         function handleFileDrop(event: DragEvent) {
             const files = Array.from(event.dataTransfer?.files || []);
+            setDragging(false);
 
             if (computedDisabled.value || computedReadonly.value) {
                 return;
             }
 
             emit('drop', files);
-            setDragging(false);
             setInputValue(files);
         }
 
-- 
2.43.0


From fdb8d9d4e7ed8b1d3f53c515d8ac159e0ed6afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:43 +0000
Subject: [PATCH 57/99] fix: use a fallback that is given after the image
 failed

---
 packages/vlossom/src/components/vs-image/VsImage.vue | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-image/VsImage.vue b/packages/vlossom/src/components/vs-image/VsImage.vue
index df8560c..2025779 100644
--- a/packages/vlossom/src/components/vs-image/VsImage.vue
+++ b/packages/vlossom/src/components/vs-image/VsImage.vue
@@ -83,8 +83,9 @@ export default defineComponent({
             return src.value;
         });
 
-        watch([src, fallback], () => {
-            isFallback.value = false;
+        watch([src, fallback], ([newSrc], [oldSrc]) => {
+            // the browser does not load a failed src again unless it changes
+            isFallback.value = newSrc === oldSrc && isNoImage.value && !isFallback.value;
             isNoImage.value = false;
         });
 
-- 
2.43.0


From fb98ba790bccd23dec9653a40082ee2f83109982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:38 +0000
Subject: [PATCH 58/99] fix: report every undeclared StyleSet key, on the line
 it stands on

---
 .../validation/style-set-validator.ts         | 46 ++++++++++++-------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index 39b3110..32804f1 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -12,6 +12,8 @@ export interface StyleSetValidationOptions {
 interface KeyOccurrence {
     key: string;
     line: number;
+    /** index of the opening brace when the value is an object */
+    objectStart?: number;
 }
 
 const CSS_PROPERTY_VARIABLE_NAMES = new Set([
@@ -125,28 +127,40 @@ function keysFromObject(code: string, openBraceIndex: number): KeyOccurrence[] {
     if (openBraceIndex < 0) return [];
 
     const keys: KeyOccurrence[] = [];
-    const startLine = lineNumber(code, openBraceIndex);
-    const lines = code.slice(openBraceIndex + 1).split('\n');
-    let depth = 1;
+    const tokens = /\/\/.*|\/\*[\s\S]*?\*\/|(["'`])(?:\\.|(?!\1)[^\\])*\1|[A-Za-z_$][\w$]*|\S/g;
+    let depth = 0;
+    let keyExpected = false;
 
-    for (let i = 0; i < lines.length; i++) {
-        const line = lines[i] ?? '';
-        if (depth === 1) {
-            const match = /^\s*(?:"([^"]+)"|'([^']+)'|([A-Za-z_$][\w$]*))\s*:/.exec(line);
-            const key = match?.[1] ?? match?.[2] ?? match?.[3];
-            if (key) keys.push({ key, line: startLine + i + 1 });
-        }
+    for (const match of code.slice(openBraceIndex).matchAll(tokens)) {
+        const token = match[0];
+        if (/^\/[/*]/.test(token)) continue;
 
-        depth += braceDelta(line);
+        if (/^[{[(]$/.test(token)) {
+            depth += 1;
+            keyExpected = true;
+            continue;
+        }
+        if (/^[}\])]$/.test(token)) depth -= 1;
         if (depth <= 0) break;
+
+        const index = openBraceIndex + (match.index ?? 0);
+        const value = /^\s*:\s*(\{)?/.exec(code.slice(index + token.length));
+        if (keyExpected && depth === 1 && value) {
+            keys.push({
+                key: match[1] ? token.slice(1, -1) : token,
+                line: lineNumber(code, index),
+                objectStart: value[1] ? index + token.length + value[0].length - 1 : undefined,
+            });
+        }
+        keyExpected = token === ',';
     }
 
     return keys;
 }
 
-function findBlockStart(code: string, blockName: string): number {
-    const match = new RegExp(`\\b${blockName}\\s*:\\s*\\{`).exec(code);
-    return match?.index === undefined ? -1 : code.indexOf('{', match.index);
+function variableKeysOf(code: string): KeyOccurrence[] {
+    const variables = keysFromObject(code, findStyleSetObjectStart(code)).find(({ key }) => key === 'variables');
+    return keysFromObject(code, variables?.objectStart ?? -1);
 }
 
 function interfaceTopLevelKeys(raw: string): Set<string> {
@@ -176,7 +190,7 @@ function validateInterfaceKeys(code: string, meta: ComponentMeta): VlossomValida
     const issues: VlossomValidationIssue[] = [];
     const allowedTopLevel = interfaceTopLevelKeys(meta.styleSet.raw);
     const topLevelKeys = keysFromObject(code, findStyleSetObjectStart(code));
-    const variableKeys = keysFromObject(code, findBlockStart(code, 'variables'));
+    const variableKeys = variableKeysOf(code);
     const allowedVariables = new Set(Object.keys(meta.styleSet.variables));
 
     for (const occurrence of topLevelKeys) {
@@ -326,7 +340,7 @@ export async function validateStyleSet(
         );
     }
 
-    if (/variables\s*:\s*\{[\s\S]*variables\s*:/m.test(code)) {
+    if (variableKeysOf(code).some(({ key }) => key === 'variables')) {
         issues.push(
             issue(
                 'STYLESET_SHAPE',
-- 
2.43.0


From 985b2b185d077be4b05e5bc8e7410f212b9972b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:56 +0000
Subject: [PATCH 59/99] fix: check a StyleSet against the type it is annotated
 with

---
 .../src/internal/validation/style-set-validator.ts    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index 32804f1..8e62fe9 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -63,11 +63,16 @@ function issue(
     return { ruleId, severity, message, suggestion, line };
 }
 
+function findTypedObject(code: string): RegExpExecArray | null {
+    return /\b(Vs[A-Z][A-Za-z0-9]*StyleSet)\b[^{}]{0,160}?[=(]\s*\{/.exec(code);
+}
+
 async function inferComponentMeta(
     code: string,
     options: StyleSetValidationOptions,
 ): Promise<{ meta?: ComponentMeta; issues: VlossomValidationIssue[] }> {
     const candidates = [
+        findTypedObject(code)?.[1] ?? '',
         ...(options.components ?? []),
         ...[...code.matchAll(/\b(Vs[A-Z][A-Za-z0-9]*StyleSet)\b/g)].map((match) => match[1] ?? ''),
     ]
@@ -110,9 +115,9 @@ function braceDelta(line: string): number {
 }
 
 function findStyleSetObjectStart(code: string): number {
-    const typed = /\bVs[A-Z][A-Za-z0-9]*StyleSet\b[\s\S]{0,160}=\s*\{/.exec(code);
-    if (typed?.index !== undefined) {
-        return code.indexOf('{', typed.index);
+    const typed = findTypedObject(code);
+    if (typed) {
+        return typed.index + typed[0].length - 1;
     }
 
     const returned = /return\s*\{/.exec(code);
-- 
2.43.0


From 6720486a0434fbd6d0a0f4a65643877ef19cdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:22 +0000
Subject: [PATCH 60/99] fix: read StyleSet interfaces that extend CSSProperties

---
 .../src/internal/validation/style-set-validator.ts           | 5 ++++-
 packages/vlossom-mcp/src/services/github-registry-service.ts | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index 8e62fe9..60a6409 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -198,8 +198,11 @@ function validateInterfaceKeys(code: string, meta: ComponentMeta): VlossomValida
     const variableKeys = variableKeysOf(code);
     const allowedVariables = new Set(Object.keys(meta.styleSet.variables));
 
+    const extendsCss = /\bextends\s[^{]*\bCSSProperties\b/.test(meta.styleSet.raw);
+
     for (const occurrence of topLevelKeys) {
-        if (!allowedTopLevel.has(occurrence.key)) {
+        const isCssProperty = extendsCss && !occurrence.key.startsWith('$') && occurrence.objectStart === undefined;
+        if (!allowedTopLevel.has(occurrence.key) && !isCssProperty) {
             issues.push(
                 issue(
                     'STYLESET_INTERFACE_KEY',
diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f319a22..63d61d3 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -211,7 +211,9 @@ function braceDelta(line: string): number {
 
 function extractStyleSetInterface(content: string, componentName: string): string {
     const interfaceName = `${componentName}StyleSet`;
-    const match = new RegExp(String.raw`export\s+interface\s+${interfaceName}\s*\{`).exec(content);
+    const match = new RegExp(String.raw`export\s+interface\s+${interfaceName}(?:\s+extends\s[^{]+)?\s*\{`).exec(
+        content,
+    );
     if (!match) return '';
 
     const startIndex = match.index + match[0].length - 1;
-- 
2.43.0


From 199d2d8d9cde7ed9e30987b1b85d3abe69d50bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:33 +0000
Subject: [PATCH 61/99] fix: scaffold StyleSets with the keys their interface
 declares

---
 .../src/internal/scaffold/style-set-scaffolder.ts         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts b/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
index a0bcce7..47bc4cb 100644
--- a/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
+++ b/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
@@ -23,6 +23,10 @@ function varName(componentName: string): string {
     return `${componentName.charAt(0).toLowerCase()}${componentName.slice(1)}StyleSet`;
 }
 
+function childKey(ref: string, raw: string): string {
+    return new RegExp(`([\\w$]+)\\??\\s*:[^;]*\\b${ref}\\b`).exec(raw)?.[1] ?? childRefToKey(ref);
+}
+
 export async function scaffoldStyleSet(
     input: StyleSetScaffoldInput,
     versionContext: VersionContext,
@@ -64,7 +68,7 @@ export async function scaffoldStyleSet(
     }
 
     for (const ref of meta.styleSet.childRefs) {
-        const key = childRefToKey(ref);
+        const key = childKey(ref, meta.styleSet.raw);
         lines.push(`  ${key}: {`);
         lines.push(`    // Nested ${ref} StyleSet`);
         lines.push('  },');
@@ -81,7 +85,7 @@ export async function scaffoldStyleSet(
             `Requirements context: ${input.description}`,
         ],
         availableVariables: variableKeys,
-        childRefs: meta.styleSet.childRefs.map((ref) => ({ key: childRefToKey(ref), type: ref })),
+        childRefs: meta.styleSet.childRefs.map((ref) => ({ key: childKey(ref, meta.styleSet.raw), type: ref })),
         code: lines.join('\n'),
         styleSetInterface: meta.styleSet.raw,
     };
-- 
2.43.0


From 5306847cf9b198abd415fde728db57a9f2bfea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:40 +0000
Subject: [PATCH 62/99] fix: give an element back exactly the container type it
 had before its scroll shadow

---
 .../vs-scroll-shadow/scroll-shadow-directive.ts           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
index 8c0c891..1f8a9f0 100644
--- a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
+++ b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
@@ -19,7 +19,9 @@ function activate(el: HTMLElement): void {
     const originalContainerType = el.style.containerType;
     const computedStyle = getComputedStyle(el).getPropertyValue('container-type').trim();
 
-    originalContainerTypeMap.set(el, originalContainerType);
+    if (!originalContainerTypeMap.has(el)) {
+        originalContainerTypeMap.set(el, originalContainerType);
+    }
     /**
      * @note 'scroll-state' is 반드시 needed for scroll shadow to work.
      * some elements may have already set a other container type, so we need to add 'scroll-state' to the existing container type.
@@ -36,6 +38,10 @@ function activate(el: HTMLElement): void {
 }
 
 function deactivate(el: HTMLElement): void {
+    if (!originalContainerTypeMap.has(el)) {
+        return;
+    }
+
     el.classList.remove(SCROLL_SHADOW_MIXIN_CLASS);
 
     const originalContainerType = originalContainerTypeMap.get(el);
-- 
2.43.0


From 478f795a11e7cedef490b8d76cb4b84756be92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:40 +0000
Subject: [PATCH 63/99] fix: keep the scroll shadow when the classes of the
 element change

---
 .../directives/vs-scroll-shadow/scroll-shadow-directive.ts    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
index 1f8a9f0..fc9739a 100644
--- a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
+++ b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
@@ -65,6 +65,10 @@ export const scrollShadow: Directive<HTMLElement, boolean | undefined> = {
     },
 
     updated(el, binding) {
+        if (originalContainerTypeMap.has(el)) {
+            // a changed class binding replaces all classes of the element
+            el.classList.add(SCROLL_SHADOW_MIXIN_CLASS);
+        }
         if (binding.value === binding.oldValue) {
             return;
         }
-- 
2.43.0


From 31113ea8b8087f5b4991c679f127f73ad3002a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:35:34 +0000
Subject: [PATCH 64/99] fix: judge table rows by their place among the items,
 not on the page

---
 packages/vlossom/src/components/vs-table/VsTableBodyRow.vue | 2 +-
 .../vlossom/src/components/vs-table/VsTableCheckboxCell.vue | 6 +++---
 .../vlossom/src/components/vs-table/VsTableExpandCell.vue   | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
index 5aff692..b3beebf 100644
--- a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
@@ -99,7 +99,7 @@ export default defineComponent({
         const colorScheme = inject<ComputedRef<ColorScheme | undefined>>(TABLE_COLOR_SCHEME_TOKEN);
 
         const state = computed<UIState>(() => {
-            return stateFn.value(getRowItem(cells.value), rowIndex.value, items?.value);
+            return stateFn.value(getRowItem(cells.value), cells.value[0]?.rowIdx, items?.value);
         });
         const { stateClasses } = useStateClass(state);
 
diff --git a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
index 9e6d936..bc572f6 100644
--- a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
@@ -3,7 +3,7 @@
         <td class="vs-table-td" v-if="anySelectable" :style="cellStyle" @click.prevent.stop="selectRow(cells, $event)">
             <slot name="select" :item="getRowItem(cells)" :value="isSelected(cells)" :rowIdx>
                 <vs-checkbox
-                    v-if="isRowSelectable(cells, rowIdx)"
+                    v-if="isRowSelectable(cells)"
                     multiple
                     :color-scheme
                     :disabled="loading"
@@ -88,12 +88,12 @@ export default defineComponent({
             };
         });
 
-        function isRowSelectable(row: VsTableCell[], rowIdx: number): boolean {
+        function isRowSelectable(row: VsTableCell[]): boolean {
             if (!isVsTableBodyRow(row)) {
                 return false;
             }
             const item = getRowItem(row);
-            return selectable.value(item, rowIdx, items.value);
+            return selectable.value(item, row[0]?.rowIdx, items.value);
         }
 
         function isSelected(row: VsTableCell[]): boolean {
diff --git a/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue b/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
index ed89ae0..5f1db09 100644
--- a/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
@@ -2,7 +2,7 @@
     <template v-if="isVsTableBodyRow(cells)">
         <td class="vs-table-td vs-table-expand-handle" :style="cellStyle">
             <vs-button
-                v-if="isExpandable(cells, rowIdx)"
+                v-if="isExpandable(cells)"
                 :color-scheme
                 :disabled="loading"
                 :style-set="expandButtonStyleSet"
@@ -64,8 +64,8 @@ export default defineComponent({
             color: 'var(--vs-cs-font-colored)',
         }));
 
-        function isExpandable(cells: VsTableBodyCell[], rowIdx: number): boolean {
-            return expandable.value(getRowItem(cells), rowIdx, items.value);
+        function isExpandable(cells: VsTableBodyCell[]): boolean {
+            return expandable.value(getRowItem(cells), cells[0]?.rowIdx, items.value);
         }
 
         function expandRow(cells: VsTableCell[], event: MouseEvent): void {
-- 
2.43.0


From e62f4bebb946ee90c522ae6c36c32776873d4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:35:34 +0000
Subject: [PATCH 65/99] fix: keep table rows expanded when the items or columns
 change

---
 .../composables/table-expand-composable.ts    | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts
index b4cfe14..ce24f9f 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts
@@ -1,12 +1,12 @@
 import { computed, reactive, type Ref } from 'vue';
 import { type VsTableItem, type VsTableCell } from './../types';
-import { isVsTableBodyRow, getRowId, getRowItem } from './../models/table-model';
+import { isVsTableBodyRow, getRowItem } from './../models/table-model';
 
 export function useTableExpand(
     expandable: Ref<(item: VsTableItem, index?: number, items?: VsTableItem[]) => boolean>,
     items: Ref<VsTableItem[]>,
 ) {
-    const expanded = reactive(new Set());
+    const expanded = reactive(new Set<VsTableItem>());
 
     const anyExpandable = computed<boolean>(() => {
         return items.value.some(expandable.value);
@@ -16,11 +16,7 @@ export function useTableExpand(
         if (!isVsTableBodyRow(row)) {
             return false;
         }
-        const rowId = getRowId(row);
-        if (!rowId) {
-            return false;
-        }
-        return expanded.has(rowId);
+        return expanded.has(getRowItem(row));
     }
 
     function toggleExpand(row: VsTableCell[]): boolean {
@@ -31,21 +27,17 @@ export function useTableExpand(
         if (!rowItem) {
             return false;
         }
-        const rowId = getRowId(row);
-        if (!rowId) {
-            return false;
-        }
         const rowIdx = row[0]?.rowIdx;
         if (!expandable.value(rowItem, rowIdx, items.value)) {
             return false;
         }
 
-        if (expanded.has(rowId)) {
-            expanded.delete(rowId);
+        if (expanded.has(rowItem)) {
+            expanded.delete(rowItem);
         } else {
-            expanded.add(rowId);
+            expanded.add(rowItem);
         }
-        return expanded.has(rowId);
+        return expanded.has(rowItem);
     }
 
     return {
-- 
2.43.0


From 6a05ddfe65a588de95a093ab38b48a34570c5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:39:26 +0000
Subject: [PATCH 66/99] fix: highlight every table row whose box is checked

---
 packages/vlossom/src/components/vs-table/VsTableBodyRow.vue    | 2 +-
 .../vlossom/src/components/vs-table/VsTableCheckboxCell.vue    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
index b3beebf..9e4e5bb 100644
--- a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
@@ -107,7 +107,7 @@ export default defineComponent({
             if (!anySelectable.value) {
                 return false;
             }
-            return selectedItems.value.includes(getRowItem(props.cells));
+            return selectedItems.value.some((item) => objectUtil.isEqual(item, getRowItem(props.cells)));
         });
 
         const showExpand = computed(() => anyExpandable.value && !!slots.expand);
diff --git a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
index bc572f6..79bae95 100644
--- a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
@@ -35,6 +35,7 @@
 
 <script lang="ts">
 import { computed, defineComponent, inject, type ComputedRef, type PropType, type Ref } from 'vue';
+import { objectUtil } from '@/utils';
 import type { ColorScheme, Size } from '@/declaration';
 import { TABLE_COMPOSABLE_TOKEN, type TableComposable } from './composables/table-composable';
 import type { VsCheckboxStyleSet } from './../vs-checkbox/types';
@@ -98,7 +99,7 @@ export default defineComponent({
 
         function isSelected(row: VsTableCell[]): boolean {
             if (isVsTableBodyRow(row)) {
-                return selectedItems.value.includes(getRowItem(row));
+                return selectedItems.value.some((item) => objectUtil.isEqual(item, getRowItem(row)));
             }
             return selectedAll.value || selectedPartial.value;
         }
-- 
2.43.0


From edb16fd10165afeeaadf062d48bdbe7499864ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:47:53 +0000
Subject: [PATCH 67/99] fix: leave nested columns with skipSearch out of the
 table search

---
 .../vs-table/composables/table-search-composable.ts      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts
index 596ee70..b4b649b 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts
@@ -1,7 +1,7 @@
 import { computed, type ComputedRef, type Ref } from 'vue';
 import type { VsSearchInputRef } from '@/components';
 import { objectUtil } from '@/utils';
-import { type VsTableBodyCell, type VsTableColumnDef } from './../types';
+import { type VsTableBodyCell, type VsTableColumnDef, type VsTableItem } from './../types';
 import { getRowItem } from './../models/table-model';
 
 export function useTableSearch(ref: Ref<VsSearchInputRef | null>, columns: ComputedRef<VsTableColumnDef[] | null>) {
@@ -20,11 +20,12 @@ export function useTableSearch(ref: Ref<VsSearchInputRef | null>, columns: Compu
         if (!item) {
             return false;
         }
-        const brushedItem = objectUtil.omit(item, skipKeyList.value);
-        const crushedItem = objectUtil.crush(brushedItem);
+        const crushedItem = objectUtil.crush(objectUtil.omit(item, skipKeyList.value)) as VsTableItem;
+        // keys of nested values are left over
+        const brushedItem = objectUtil.omit(crushedItem, skipKeyList.value);
         const search = ref.value.match;
 
-        const flattenedItemText = Object.values(crushedItem).join(' ');
+        const flattenedItemText = Object.values(brushedItem).join(' ');
         return search(flattenedItemText);
     }
 
-- 
2.43.0


From 834487ceec135515f3a6dc51d4a886e8d319e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:04 +0000
Subject: [PATCH 68/99] fix: apply the radius ratio option to the page

---
 packages/vlossom/src/framework/vlossom-class.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/vlossom/src/framework/vlossom-class.ts b/packages/vlossom/src/framework/vlossom-class.ts
index b3a5ef1..9264841 100644
--- a/packages/vlossom/src/framework/vlossom-class.ts
+++ b/packages/vlossom/src/framework/vlossom-class.ts
@@ -33,6 +33,9 @@ export class Vlossom {
         this._optionsStore.setColorScheme(colorScheme);
         this._optionsStore.setStyleSet(styleSet);
         this._optionsStore.setRadiusRatio(radiusRatio);
+        if (options.radiusRatio !== undefined) {
+            this.applyRadiusRatio();
+        }
 
         this.setDefaultTheme(theme);
     }
@@ -84,6 +87,7 @@ export class Vlossom {
 
     set radiusRatio(radiusRatio: number) {
         this._optionsStore.setRadiusRatio(radiusRatio);
+        this.applyRadiusRatio();
     }
 
     get radiusRatio(): number {
@@ -95,6 +99,10 @@ export class Vlossom {
         localStorage.setItem(THEME_KEY, this.theme);
     }
 
+    private applyRadiusRatio() {
+        document.documentElement.style.setProperty('--vs-radius-ratio', String(this.radiusRatio));
+    }
+
     private setDefaultTheme(optionTheme: Theme = 'light') {
         const savedTheme = localStorage.getItem(THEME_KEY);
         const mediaQuery = window.matchMedia('(prefers-color-scheme: dark)');
-- 
2.43.0


From 86d1a50b33a018a618f71226c520e727903d2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:09 +0000
Subject: [PATCH 69/99] fix: leave keys typed inside an accordion to what they
 are typed in

---
 packages/vlossom/src/components/vs-accordion/VsAccordion.vue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-accordion/VsAccordion.vue b/packages/vlossom/src/components/vs-accordion/VsAccordion.vue
index 16f5835..cd936ef 100644
--- a/packages/vlossom/src/components/vs-accordion/VsAccordion.vue
+++ b/packages/vlossom/src/components/vs-accordion/VsAccordion.vue
@@ -5,8 +5,8 @@
         :grid
         :style="{ ...styleSetVariables, ...componentInlineStyle }"
         :tabindex="disabled ? -1 : 0"
-        @keydown.enter.prevent.stop="toggle"
-        @keydown.space.prevent.stop="toggle"
+        @keydown.enter.self.prevent.stop="toggle"
+        @keydown.space.self.prevent.stop="toggle"
     >
         <div class="vs-accordion-title" :style="componentStyleSet.$title" @click.prevent.stop="toggle">
             <slot name="title" />
-- 
2.43.0


From 969258b79d5271efef3a4647041ad51b5c27068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:09 +0000
Subject: [PATCH 70/99] fix: let updateIndex of an index view work without a
 bound index

---
 packages/vlossom/src/components/vs-index-view/VsIndexView.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-index-view/VsIndexView.vue b/packages/vlossom/src/components/vs-index-view/VsIndexView.vue
index 923130c..5940776 100644
--- a/packages/vlossom/src/components/vs-index-view/VsIndexView.vue
+++ b/packages/vlossom/src/components/vs-index-view/VsIndexView.vue
@@ -55,7 +55,7 @@ export default defineComponent({
         }
 
         function updateIndex(newIndex: number) {
-            emit('update:modelValue', newIndex);
+            index.value = newIndex;
         }
 
         watch(modelValue, (newValue) => {
-- 
2.43.0


From 9612239bd7027643303cad79acaffc7930a6f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:09 +0000
Subject: [PATCH 71/99] fix: do not pass the state of one child of an index
 view on to another

---
 packages/vlossom/src/components/vs-index-view/VsIndexView.vue | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-index-view/VsIndexView.vue b/packages/vlossom/src/components/vs-index-view/VsIndexView.vue
index 5940776..244ef1c 100644
--- a/packages/vlossom/src/components/vs-index-view/VsIndexView.vue
+++ b/packages/vlossom/src/components/vs-index-view/VsIndexView.vue
@@ -109,7 +109,8 @@ export default defineComponent({
                     ]);
                 }
                 const currentNode = filteredNodes[currentIndex];
-                return currentNode || null;
+                // one child is never patched into another
+                return currentNode ? h(Fragment, { key: currentIndex }, [currentNode]) : null;
             }
 
             const content = renderContent();
-- 
2.43.0


From 5509c4c59a3ded581f450f640ec4ce222b2206f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:09 +0000
Subject: [PATCH 72/99] fix: copy the text a text wrap displays now

---
 .../src/components/vs-text-wrap/VsTextWrap.vue       | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
index 48a7b3f..6ca26de 100644
--- a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
+++ b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
@@ -79,21 +79,18 @@ export default defineComponent({
         const contentsRef: Ref<HTMLElement | null> = ref(null);
         const copied = ref(false);
 
-        const contentText = computed(() => {
-            return contentsRef.value?.innerText || '';
-        });
-
         async function copyInnerText() {
-            if (!contentText.value) {
+            const contentText = contentsRef.value?.innerText || '';
+            if (!contentText) {
                 return;
             }
 
-            const success = await clipboardUtil.copy(contentText.value);
+            const success = await clipboardUtil.copy(contentText);
             if (!success) {
                 return;
             }
 
-            emit('copied', contentText.value);
+            emit('copied', contentText);
 
             copied.value = true;
             setTimeout(() => {
@@ -126,7 +123,6 @@ export default defineComponent({
         return {
             componentStyleSet,
             componentInlineStyle,
-            contentText,
             contentsRef,
             copyInnerText,
             openLink,
-- 
2.43.0


From 9062015b83e3743f16b123ffd3fcf6e92dab476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:09 +0000
Subject: [PATCH 73/99] fix: keep the copied mark for its whole time after
 copying again

---
 packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
index 6ca26de..6fca55f 100644
--- a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
+++ b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
@@ -78,6 +78,7 @@ export default defineComponent({
 
         const contentsRef: Ref<HTMLElement | null> = ref(null);
         const copied = ref(false);
+        let copiedTimer: ReturnType<typeof setTimeout> | undefined;
 
         async function copyInnerText() {
             const contentText = contentsRef.value?.innerText || '';
@@ -93,7 +94,8 @@ export default defineComponent({
             emit('copied', contentText);
 
             copied.value = true;
-            setTimeout(() => {
+            clearTimeout(copiedTimer);
+            copiedTimer = setTimeout(() => {
                 copied.value = false;
             }, 2000);
         }
-- 
2.43.0


From 6cdbe8c00832c9bf17ca265440d4d15467b549f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:37:43 +0000
Subject: [PATCH 74/99] fix: do not focus the options of a select that was shut
 at once

---
 packages/vlossom/src/components/vs-select/VsSelect.vue | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 3b3742c..9bd966b 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -443,6 +443,11 @@ export default defineComponent({
             // setTimeout + nextTick을 사용해야 DOM이 완전히 렌더링된 후 스크롤 가능
             setTimeout(() => {
                 nextTick(() => {
+                    // shut again in the meantime
+                    if (!isOpen.value) {
+                        return;
+                    }
+
                     addMouseMoveListener();
 
                     const selectedId = selectedOptionIds.value[0];
-- 
2.43.0


From d62dd703ef54e9fb0ba72d468f031226b0ae486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:58 +0000
Subject: [PATCH 75/99] fix: emit clear of a date picker only when the user
 cleared it

---
 packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 8ebdbc1..5889955 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -251,7 +251,7 @@ export default defineComponent({
         function onDateInput(value: string | number | null): void {
             const raw = value?.toString() ?? '';
             if (!raw) {
-                if (inputValue.value && !isValidFormat(inputValue.value, type.value)) {
+                if (!inputValue.value || !isValidFormat(inputValue.value, type.value)) {
                     return;
                 }
                 onClear();
-- 
2.43.0


From 565419a61b3316ec06a53130e01fd89a42a107cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:48:02 +0000
Subject: [PATCH 76/99] fix: fall back to focusing a date picker that cannot be
 opened

---
 .../src/components/vs-date-picker/VsDatePicker.vue       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 5889955..5a240a0 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -292,13 +292,18 @@ export default defineComponent({
             if (!input || computedDisabled.value || computedReadonly.value) {
                 return;
             }
+
+            input.focus();
             const showPicker = input.showPicker;
             if (typeof showPicker !== 'function') {
                 return;
             }
 
-            input.focus();
-            showPicker.call(input);
+            try {
+                showPicker.call(input);
+            } catch {
+                // without a user gesture the browser refuses, the focus has to do
+            }
         }
 
         watch(
-- 
2.43.0


From 6f13278527b71678d194816e544566d36a69702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:16 +0000
Subject: [PATCH 77/99] fix: name only resources the MCP server serves in
 search and reference results

---
 .../internal/reference/reference-service.ts   |  2 --
 .../search/component-search-service.ts        | 21 ++++++-------------
 packages/vlossom-mcp/src/internal/types.ts    |  2 +-
 3 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/reference/reference-service.ts b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
index f389f94..17ff480 100644
--- a/packages/vlossom-mcp/src/internal/reference/reference-service.ts
+++ b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
@@ -233,7 +233,6 @@ async function directiveReference(
             ...directive,
             versionSupport: getVersionSupport(directive.availableVersion, versionContext),
         } as unknown as Record<string, unknown>,
-        resourceUris: [{ uri: `vlossom://directives/${directive.name}`, description: 'Directive reference' }],
         next_actions: [
             {
                 tool: 'get_vlossom_reference',
@@ -292,7 +291,6 @@ async function composableReference(
             ...composable,
             versionSupport: getVersionSupport(composable.availableVersion, versionContext),
         } as unknown as Record<string, unknown>,
-        resourceUris: [{ uri: `vlossom://composables/${composable.name}`, description: 'Composable reference' }],
         next_actions: [
             {
                 tool: 'get_vlossom_reference',
diff --git a/packages/vlossom-mcp/src/internal/search/component-search-service.ts b/packages/vlossom-mcp/src/internal/search/component-search-service.ts
index 7d68217..58c4b0e 100644
--- a/packages/vlossom-mcp/src/internal/search/component-search-service.ts
+++ b/packages/vlossom-mcp/src/internal/search/component-search-service.ts
@@ -56,7 +56,7 @@ function normalizeQuery(query: string | undefined): string {
     return (query ?? '').trim();
 }
 
-function resourceUri(type: Exclude<SearchTarget, 'all'>, id: string): string {
+function resourceUri(type: Exclude<SearchTarget, 'all'>, id: string): string | undefined {
     switch (type) {
         case 'component':
             return `vlossom://components/${id}`;
@@ -69,7 +69,7 @@ function resourceUri(type: Exclude<SearchTarget, 'all'>, id: string): string {
         case 'changelog':
             return 'vlossom://changelog';
         default:
-            return `vlossom://${type}s/${id}`;
+            return undefined;
     }
 }
 
@@ -333,6 +333,7 @@ export async function searchVlossom(input: SearchVlossomInput): Promise<SearchVl
 
         if (target !== 'all') {
             const results = await searchByTarget(target, query, limit, versionContext);
+            const listUri = target === 'component' ? 'vlossom://components' : resourceUri(target, '');
             const coverage = intent === 'build-ui' && query ? await resolveCoverage(query, versionContext) : undefined;
             return {
                 status: results.length > 0 || coverage?.length ? 'ok' : 'empty',
@@ -344,19 +345,9 @@ export async function searchVlossom(input: SearchVlossomInput): Promise<SearchVl
                 versionContext,
                 coverage,
                 expandedTerms,
-                resourceUris: [
-                    {
-                        uri:
-                            target === 'component'
-                                ? 'vlossom://components'
-                                : target === 'token'
-                                  ? 'vlossom://tokens/css'
-                                  : target === 'option'
-                                    ? 'vlossom://options/create-vlossom'
-                                    : `vlossom://${target}s`,
-                        description: `Registry-backed Vlossom ${target} reference`,
-                    },
-                ],
+                resourceUris: listUri
+                    ? [{ uri: listUri, description: `Registry-backed Vlossom ${target} reference` }]
+                    : undefined,
                 next_actions:
                     results.length > 0
                         ? [
diff --git a/packages/vlossom-mcp/src/internal/types.ts b/packages/vlossom-mcp/src/internal/types.ts
index 782e75e..9b351d2 100644
--- a/packages/vlossom-mcp/src/internal/types.ts
+++ b/packages/vlossom-mcp/src/internal/types.ts
@@ -31,7 +31,7 @@ export interface SearchableResult {
     id: string;
     name: string;
     description: string;
-    resourceUri: string;
+    resourceUri?: string;
     score?: number;
     versionSupport?: VersionSupport;
 }
-- 
2.43.0


From 3086df38ba0da953244b965d010d968a7408c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:07 +0000
Subject: [PATCH 78/99] fix: keep the description of a scaffold inside its
 template comment

---
 .../src/internal/scaffold/component-usage-scaffolder.ts         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts b/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
index 3652b5f..0f72f0d 100644
--- a/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
+++ b/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
@@ -136,7 +136,7 @@ function buildTemplate(description: string, components: ComponentMeta[]): string
 }
 
 function titleFromDescription(description: string, maxLength: number): string {
-    const trimmed = description.trim();
+    const trimmed = description.replace(/-+>/g, '->').trim();
     if (!trimmed) return 'Vlossom UI';
     return trimmed.length > maxLength ? `${trimmed.slice(0, maxLength - 1)}...` : trimmed;
 }
-- 
2.43.0


From f9d935d3a13c37266a9426a0cb03f80d06602c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:06:37 +0000
Subject: [PATCH 79/99] fix: leave commented out markup out of usage validation

---
 packages/vlossom-mcp/src/internal/validation/sfc-validator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index 4da035e..d769578 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -299,7 +299,9 @@ function validateInternalCssSelectors(code: string): VlossomValidationIssue[] {
     return issues;
 }
 
-export async function validateSfc(code: string, options: SfcValidationOptions): Promise<VlossomValidationIssue[]> {
+export async function validateSfc(source: string, options: SfcValidationOptions): Promise<VlossomValidationIssue[]> {
+    // commented out markup is not checked; blanking it keeps the line numbers
+    const code = source.replace(/<!--[\s\S]*?-->/g, (comment) => comment.replace(/\S/g, ' '));
     const versionContext = options.versionContext;
     const issues: VlossomValidationIssue[] = [
         ...(versionContext ? await validateComponentExistence(code, versionContext) : []),
-- 
2.43.0


From 046c9808b9516f61c0109cce0bbacfa4f6425401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:09 +0000
Subject: [PATCH 80/99] fix: keep the spaces between words and tags of rendered
 HTML content

---
 packages/vlossom/src/components/vs-render/VsRender.vue | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/packages/vlossom/src/components/vs-render/VsRender.vue b/packages/vlossom/src/components/vs-render/VsRender.vue
index ea27555..5d2bae2 100644
--- a/packages/vlossom/src/components/vs-render/VsRender.vue
+++ b/packages/vlossom/src/components/vs-render/VsRender.vue
@@ -30,10 +30,7 @@ export default defineComponent({
             const children: any[] = [];
             Array.from(element.childNodes).forEach((child) => {
                 if (child.nodeType === Node.TEXT_NODE) {
-                    const text = child.textContent?.trim();
-                    if (text) {
-                        children.push(text);
-                    }
+                    children.push(child.textContent);
                 } else if (child.nodeType === Node.ELEMENT_NODE) {
                     children.push(renderElement(child as Element));
                 }
-- 
2.43.0


From f5a5994a29deb1bd71099adf94996c335cebb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:10 +0000
Subject: [PATCH 81/99] fix: render HTML content with a stray end tag instead
 of wrapping it forever

---
 packages/vlossom/src/components/vs-render/VsRender.vue | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-render/VsRender.vue b/packages/vlossom/src/components/vs-render/VsRender.vue
index 5d2bae2..b96f357 100644
--- a/packages/vlossom/src/components/vs-render/VsRender.vue
+++ b/packages/vlossom/src/components/vs-render/VsRender.vue
@@ -50,7 +50,9 @@ export default defineComponent({
                 const doc = parser.parseFromString(htmlString.trim(), 'text/html');
                 const needRootElement = doc.body.childNodes.length > 1;
                 if (needRootElement) {
-                    return renderStringAsComponent(`<div>${htmlString}</div>`);
+                    const root = doc.createElement('div');
+                    root.append(...doc.body.childNodes);
+                    return () => renderElement(root);
                 }
                 const element = doc.body.firstElementChild;
 
-- 
2.43.0


From 1a58d44fe6bcad3d04fd5798adcb8357e494454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:12 +0000
Subject: [PATCH 82/99] fix: keep the case of SVG tag names in rendered HTML
 content

---
 packages/vlossom/src/components/vs-render/VsRender.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-render/VsRender.vue b/packages/vlossom/src/components/vs-render/VsRender.vue
index b96f357..6646a3e 100644
--- a/packages/vlossom/src/components/vs-render/VsRender.vue
+++ b/packages/vlossom/src/components/vs-render/VsRender.vue
@@ -36,7 +36,7 @@ export default defineComponent({
                 }
             });
 
-            return h(element.tagName.toLowerCase(), attributes, children);
+            return h(element.localName, attributes, children);
         }
 
         function renderStringAsComponent(htmlString: string) {
-- 
2.43.0


From 66d24f69d6b3d33de4cb3565a2596ef50f2e70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:17:07 +0000
Subject: [PATCH 83/99] fix: let overlays read global properties that are not
 configurable

---
 packages/vlossom/src/framework/overlay-helper.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/framework/overlay-helper.ts b/packages/vlossom/src/framework/overlay-helper.ts
index 7d1a1f0..b670011 100644
--- a/packages/vlossom/src/framework/overlay-helper.ts
+++ b/packages/vlossom/src/framework/overlay-helper.ts
@@ -64,10 +64,9 @@ export function inheritAppContext(parent: App, overlay: App) {
             return Reflect.set(target, key, value, receiver);
         },
         getOwnPropertyDescriptor(target, key) {
-            return (
-                Object.getOwnPropertyDescriptor(target, key) ??
-                Object.getOwnPropertyDescriptor(pctx.config.globalProperties, key)
-            );
+            const inherited = Object.getOwnPropertyDescriptor(pctx.config.globalProperties, key);
+            // a proxy must not report properties its target lacks as non-configurable (e.g. $route of vue-router)
+            return Object.getOwnPropertyDescriptor(target, key) ?? (inherited && { ...inherited, configurable: true });
         },
         ownKeys(target) {
             return Array.from(
-- 
2.43.0


From 44b4311a1d110862badf67ae5903df212e8470f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:17:07 +0000
Subject: [PATCH 84/99] fix: keep global properties assigned inside overlays
 writable

---
 packages/vlossom/src/framework/overlay-helper.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/framework/overlay-helper.ts b/packages/vlossom/src/framework/overlay-helper.ts
index b670011..42f1b66 100644
--- a/packages/vlossom/src/framework/overlay-helper.ts
+++ b/packages/vlossom/src/framework/overlay-helper.ts
@@ -60,8 +60,8 @@ export function inheritAppContext(parent: App, overlay: App) {
         has(target, key) {
             return Reflect.has(target, key) || Reflect.has(pctx.config.globalProperties, key);
         },
-        set(target, key, value, receiver) {
-            return Reflect.set(target, key, value, receiver);
+        set(target, key, value) {
+            return Reflect.set(target, key, value);
         },
         getOwnPropertyDescriptor(target, key) {
             const inherited = Object.getOwnPropertyDescriptor(pctx.config.globalProperties, key);
-- 
2.43.0


From 8f66453105866e2b57b767e5f95b944ba5243648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:55 +0000
Subject: [PATCH 85/99] fix: hide the label of the sets, the radio and the
 switch with noLabel

VsCheckboxSet, VsRadio, VsRadioSet and VsSwitch accept noLabel but never
handed it to the input wrapper, so the label stayed on the page.
---
 packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue | 1 +
 packages/vlossom/src/components/vs-radio/VsRadio.vue          | 1 +
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue       | 1 +
 packages/vlossom/src/components/vs-switch/VsSwitch.vue        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 155db9c..ce52371 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -9,6 +9,7 @@
         :grid
         :label
         :required
+        :no-label
         :no-messages
         :shake
         group-label
diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index 261e982..4c851dd 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -7,6 +7,7 @@
         :messages="computedMessages"
         :grid
         :label
+        :no-label
         :no-messages
         :required
         :shake
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index 276b00a..1e3d67b 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -9,6 +9,7 @@
         :grid
         :label
         :required
+        :no-label
         :no-messages
         :shake
         group-label
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index a570800..2acd258 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -9,6 +9,7 @@
         :required
         :disabled="computedDisabled"
         :messages="computedMessages"
+        :no-label
         :no-messages
         :shake
     >
-- 
2.43.0


From dbd96e5ba9249360432a0164ed0ad4414dcbec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:55 +0000
Subject: [PATCH 86/99] fix: give the id of a date picker to its input

The id went only to the wrapper, which does not render it. The input
had a generated id, so a label or a test could not find it.
---
 packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 5a240a0..c12ca6c 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -21,6 +21,7 @@
         <vs-input
             ref="dateInputRef"
             class="vs-date-picker"
+            :id="computedId"
             :model-value="displayValue"
             :style-set="componentStyleSet.$input"
             :placeholder="computedPlaceholder"
-- 
2.43.0


From 3e3229753ad40c6797903743f99fd4fdcd19b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:30:33 +0000
Subject: [PATCH 87/99] fix: show an option label that is 0, false or empty

An option whose label field held a falsy value was reported as having
no label, and its JSON was shown instead.
---
 .../option-label-value/option-label-value-composable.ts         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/option-label-value/option-label-value-composable.ts b/packages/vlossom/src/composables/option-label-value/option-label-value-composable.ts
index af637ae..63a63fa 100644
--- a/packages/vlossom/src/composables/option-label-value/option-label-value-composable.ts
+++ b/packages/vlossom/src/composables/option-label-value/option-label-value-composable.ts
@@ -7,7 +7,7 @@ export function useOptionLabelValue(optionLabel: Ref<string>, optionValue: Ref<s
             if (optionLabel.value) {
                 const label = objectUtil.get(option, optionLabel.value);
 
-                if (!label) {
+                if (label === undefined || label === null) {
                     logUtil.error(
                         'option-label',
                         `${optionLabel.value} is not found in option: ${JSON.stringify(option)}`,
-- 
2.43.0


From 18496ed1760e4bbd00a019e45f6636c910363483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:30:33 +0000
Subject: [PATCH 88/99] fix: keep a chosen option of 0, false or '' when the
 options change

The option found in the new list was tested for truth, so a value that
was still offered was reset to null.
---
 .../src/composables/input-option/input-option-composable.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/input-option/input-option-composable.ts b/packages/vlossom/src/composables/input-option/input-option-composable.ts
index eb109f1..352ada1 100644
--- a/packages/vlossom/src/composables/input-option/input-option-composable.ts
+++ b/packages/vlossom/src/composables/input-option/input-option-composable.ts
@@ -21,9 +21,9 @@ export function useInputOption(
                 return newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), value));
             });
         } else {
-            const option = newOptions.find((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
+            const isOffered = newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
 
-            if (!option) {
+            if (!isOffered) {
                 inputValue.value = null;
             }
         }
-- 
2.43.0


From 55477c7004ca54d843fc7d0f6adaf0672436dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:31:44 +0000
Subject: [PATCH 89/99] fix: drop values no longer offered when options change
 in place

The option sets watched only the array itself. Removing an option with
splice left its value selected, while a select dropped it.
---
 .../src/composables/input-option/input-option-composable.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/input-option/input-option-composable.ts b/packages/vlossom/src/composables/input-option/input-option-composable.ts
index 352ada1..ec171fc 100644
--- a/packages/vlossom/src/composables/input-option/input-option-composable.ts
+++ b/packages/vlossom/src/composables/input-option/input-option-composable.ts
@@ -1,4 +1,4 @@
-import { watch, ref, type Ref } from 'vue';
+import { computed, watch, ref, type Ref } from 'vue';
 import { objectUtil } from '@/utils';
 import { useOptionLabelValue } from '@/composables/option-label-value/option-label-value-composable';
 
@@ -11,7 +11,9 @@ export function useInputOption(
 ) {
     const { getOptionLabel, getOptionValue } = useOptionLabelValue(optionLabel, optionValue);
 
-    watch(options, (newOptions, oldOptions) => {
+    // a copy, so that a list changed in place is noticed too
+    const offeredOptions = computed(() => [...(options.value ?? [])]);
+    watch(offeredOptions, (newOptions, oldOptions) => {
         if (objectUtil.isEqual(newOptions, oldOptions)) {
             return;
         }
-- 
2.43.0


From 08351981136878f8b517d640b47840635dbd9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:47:04 +0000
Subject: [PATCH 90/99] fix: take null assigned to a file drop as no files

Assigning null after mounting, as a form reset does, broke rendering and
the rules. It was already accepted at mount time.
---
 packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index 1292c7e..07ed5eb 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -200,7 +200,7 @@ export default defineComponent({
             { emit },
             {
                 inputValue,
-                modelValue,
+                modelValue: computed(() => modelValue.value ?? []),
                 id,
                 disabled,
                 readonly,
-- 
2.43.0


From 803d1595a0a0935392d7994175922034e75fb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:48:41 +0000
Subject: [PATCH 91/99] fix: report rgba() and hsla() as hardcoded colors of a
 StyleSet

Only rgb() and hsl() were recognised, so a hardcoded color with an
alpha value passed the validation.
---
 .../vlossom-mcp/src/internal/validation/style-set-validator.ts  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index 60a6409..db3dbde 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -284,7 +284,7 @@ function validateInterfaceKeys(code: string, meta: ComponentMeta): VlossomValida
 function validateTokensAndNaming(code: string): VlossomValidationIssue[] {
     const issues: VlossomValidationIssue[] = [];
 
-    for (const match of code.matchAll(/#[0-9a-fA-F]{3,8}\b|rgb\s*\(|hsl\s*\(/g)) {
+    for (const match of code.matchAll(/#[0-9a-fA-F]{3,8}\b|rgba?\s*\(|hsla?\s*\(/g)) {
         issues.push(
             issue(
                 'STYLESET_TOKEN',
-- 
2.43.0


From 75dd18aede85479d9f30485d87a98616ce38cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:49:22 +0000
Subject: [PATCH 92/99] fix: ignore comments when looking for colors and
 variables of a StyleSet

A color or a CSS variable mentioned in a comment was reported as if it
were used, and a variable made the StyleSet invalid.
---
 .../src/internal/validation/style-set-validator.ts        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index db3dbde..f185564 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -63,6 +63,12 @@ function issue(
     return { ruleId, severity, message, suggestion, line };
 }
 
+function blankComments(code: string): string {
+    return code.replace(/(["'`])(?:\\.|(?!\1)[^\\])*\1|\/\/.*|\/\*[\s\S]*?\*\//g, (part, quote) =>
+        quote ? part : part.replace(/\S/g, ' '),
+    );
+}
+
 function findTypedObject(code: string): RegExpExecArray | null {
     return /\b(Vs[A-Z][A-Za-z0-9]*StyleSet)\b[^{}]{0,160}?[=(]\s*\{/.exec(code);
 }
@@ -365,7 +371,7 @@ export async function validateStyleSet(
         issues.push(...validateComponentVersion(meta, options.versionContext));
         issues.push(...validateInterfaceKeys(code, meta));
     }
-    issues.push(...validateTokensAndNaming(code));
+    issues.push(...validateTokensAndNaming(blankComments(code)));
 
     return issues;
 }
-- 
2.43.0


From 7896619c59f3b12afa5aee74d4da3ae4e60d8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:51:35 +0000
Subject: [PATCH 93/99] fix: name the component in the follow-up of an inline
 style issue

The suggested lookup turned vs-button into Vsbutton, which no registry
entry matches. The tag itself is a valid id.
---
 .../src/internal/validation/vlossom-first-validator.ts          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
index 77810a2..dd1e68e 100644
--- a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
@@ -119,7 +119,7 @@ function detectVlossomInlineStyles(code: string, mode: VlossomFirstMode): Vlosso
             actions: [
                 {
                     tool: 'get_vlossom_reference',
-                    input: { type: 'component', id: component.replace(/^vs-/, 'Vs'), include: ['styleSet'] },
+                    input: { type: 'component', id: component, include: ['styleSet'] },
                     reason: 'retrieve the StyleSet interface for this component',
                 },
             ],
-- 
2.43.0


From 463450c9e82bb68ff368fc4dfcffd7e1c8e245a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:51:48 +0000
Subject: [PATCH 94/99] fix: find an inline style behind an attribute with a
 comparison

The search for style="..." stopped at the first > of the tag, also
inside a quoted attribute value.
---
 .../src/internal/validation/vlossom-first-validator.ts         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
index dd1e68e..73c0375 100644
--- a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
@@ -106,7 +106,8 @@ function detectVlossomInlineStyles(code: string, mode: VlossomFirstMode): Vlosso
     // a Vlossom component. We only flag inline strings; `:style` bindings can be
     // legitimate (e.g. computed CSS variable maps), so they are left alone.
     const issues: VlossomValidationIssue[] = [];
-    const inlineStylePattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b[^>]*\sstyle\s*=\s*["'][^"']*["']/g;
+    const inlineStylePattern =
+        /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b(?:"[^"]*"|'[^']*'|[^'">])*?\sstyle\s*=\s*(?:"[^"]*"|'[^']*')/g;
     for (const match of code.matchAll(inlineStylePattern)) {
         const component = match[1] ?? '';
         issues.push({
-- 
2.43.0


From 91f64dbdb6e04faff76db50676512bfcac7d6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:51:50 +0000
Subject: [PATCH 95/99] fix: leave commented out markup of project files
 unreported

The project check reported native tags and inline styles inside HTML
comments, which the check of a single file ignores.
---
 .../src/internal/validation/vlossom-first-validator.ts        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
index 73c0375..215993c 100644
--- a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
@@ -130,12 +130,14 @@ function detectVlossomInlineStyles(code: string, mode: VlossomFirstMode): Vlosso
 }
 
 export async function validateVlossomFirst(
-    code: string,
+    source: string,
     mode: VlossomFirstMode,
     versionContext: VersionContext,
 ): Promise<VlossomValidationIssue[]> {
     if (mode === 'off') return [];
     const issues: VlossomValidationIssue[] = [];
+    // commented out markup is not used; blanking it keeps the line numbers
+    const code = source.replace(/<!--[\s\S]*?-->/g, (comment) => comment.replace(/\S/g, ' '));
 
     for (const tag of NATIVE_TAGS) {
         const pattern = new RegExp(`<\\s*${tag}(\\s|>|/)`, 'gi');
-- 
2.43.0


From ced3dff8f767a66169f9f3c7b8c58a007fb871b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:54 +0000
Subject: [PATCH 96/99] fix: accept imported enums and types in the usage
 validation

Importing VsComponent, VsTableSortType or a StyleSet or Ref type without
the type keyword was reported as an unknown component.
---
 packages/vlossom-mcp/src/internal/validation/sfc-validator.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index d769578..e760dc3 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -53,7 +53,8 @@ function extractVlossomImportEntries(code: string): Array<{ name: string; line:
                         .split(/\s+as\s+/)[0]
                         ?.trim() ?? '',
             )
-            .filter((name) => /^Vs[A-Z]/.test(name));
+            // enums and types of the components are no components
+            .filter((name) => /^Vs[A-Z]/.test(name) && !/^VsComponent$|(StyleSet|Ref|Type)$/.test(name));
         entries.push(
             ...names.map((name) => ({
                 name,
-- 
2.43.0


From af8e022ebd375d0970b75fa7c5ab7138e9257c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:57:03 +0000
Subject: [PATCH 97/99] fix: let the clear button remove a 0 from a number
 input

The button was hidden and disabled for 0, which is a value like any
other number.
---
 packages/vlossom/src/components/vs-input/VsInput.vue | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-input/VsInput.vue b/packages/vlossom/src/components/vs-input/VsInput.vue
index b67d6eb..52b2075 100644
--- a/packages/vlossom/src/components/vs-input/VsInput.vue
+++ b/packages/vlossom/src/components/vs-input/VsInput.vue
@@ -46,9 +46,9 @@
                 type="button"
                 class="vs-clear-button"
                 aria-label="Clear"
-                :class="{ show: inputValue }"
-                :disabled="!inputValue"
-                :tabindex="!!inputValue ? 0 : -1"
+                :class="{ show: hasValue }"
+                :disabled="!hasValue"
+                :tabindex="hasValue ? 0 : -1"
                 @click.stop="clearWithFocus"
             >
                 <XIcon class="vs-clear-icon" />
@@ -201,6 +201,7 @@ export default defineComponent({
 
         const { stateBoxClasses } = useStateClass(computedState);
 
+        const hasValue = computed(() => !!inputValue.value || inputValue.value === 0);
         const renderClearButton = computed(() => !noClear.value && !computedReadonly.value && !computedDisabled.value);
 
         function onInput(event: Event) {
@@ -253,6 +254,7 @@ export default defineComponent({
             computedMessages,
             computedDisabled,
             computedReadonly,
+            hasValue,
             renderClearButton,
             shake,
             stateBoxClasses,
-- 
2.43.0


From 56759d678d45a21ff277219d67482647638b41c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:03:58 +0000
Subject: [PATCH 98/99] fix: line up the cells of a table without columns with
 its headers

---
 .../models/strategy/no-column-def-cell-strategy.ts     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/models/strategy/no-column-def-cell-strategy.ts b/packages/vlossom/src/components/vs-table/models/strategy/no-column-def-cell-strategy.ts
index b7edb81..22f9a0d 100644
--- a/packages/vlossom/src/components/vs-table/models/strategy/no-column-def-cell-strategy.ts
+++ b/packages/vlossom/src/components/vs-table/models/strategy/no-column-def-cell-strategy.ts
@@ -7,8 +7,7 @@ export default class NoColumnDefCellStrategy implements TableCellStrategy {
 
     public createHeaderCell(): VsTableHeaderCell[] {
         const tag = 'th';
-        const itemKeys = this.items.length > 0 ? Object.keys(this.items[0]) : [];
-        return itemKeys.map((key: string, idx: number) => ({
+        return this.getItemKeys().map((key: string, idx: number) => ({
             tag,
             id: `${key}-${stringUtil.createID()}`,
             value: key,
@@ -21,8 +20,9 @@ export default class NoColumnDefCellStrategy implements TableCellStrategy {
 
     public createBodyCell(): VsTableBodyCell[][] {
         const tag = 'td';
+        const itemKeys = this.getItemKeys();
         return this.items.map((item: VsTableItem, rowIdx: number) => {
-            return Object.keys(item).map((key: string, colIdx: number) => ({
+            return itemKeys.map((key: string, colIdx: number) => ({
                 tag,
                 id: `${key}-${stringUtil.createID()}`,
                 value: item[key],
@@ -33,4 +33,8 @@ export default class NoColumnDefCellStrategy implements TableCellStrategy {
             }));
         });
     }
+
+    private getItemKeys(): string[] {
+        return [...new Set(this.items.flatMap((item: VsTableItem) => Object.keys(item)))];
+    }
 }
-- 
2.43.0


From c91a2e2bd0c123ba9077b50bdd950dbe2a965157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:03:58 +0000
Subject: [PATCH 99/99] fix: hand out the items a table was last given

---
 .../src/components/vs-table/models/table-cell-builder.ts        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
index 5add0f2..49cd7a2 100644
--- a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
+++ b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
@@ -29,7 +29,7 @@ export class TableCellBuilder {
     }
 
     public updateItems(items: VsTableItem[]): TableCellBuilder {
-        if (objectUtil.isEqual(this.items, items)) {
+        if (this.items === items) {
             return this;
         }
         this.items = items;
-- 
2.43.0

