// Source of /verif/properties.jsonl: `node tools/properties.mjs > properties.jsonl`.
const C = 'packages/vlossom/src/components/';
const K = 'packages/vlossom/src/composables/';
const S = 'packages/vlossom/src/stores/';
const L = 'packages/vlossom/src/plugins/';
const U = 'packages/vlossom/src/utils/';
const M = 'packages/vlossom-mcp/src/';

const P = [
    {
        id: 'P01',
        title: 'Key presses reach only the topmost open overlay',
        statement:
            'While several overlays are open, a key press runs at most one overlay handler: the one registered for that key by the most recently opened overlay that is still open. Closing overlays in any order, clearing them, unmounting them, or closing others from inside a close notification never lets a closed overlay receive keys and never removes an overlay that was not asked to close. Each opening and each closing notifies its overlay exactly once.',
        over: ['histories'],
        q: 'every sequence of open / close / unmount / clear / key press over a set of overlays, including close notifications that close further overlays',
        why: 'Unit tests push two or three overlays and remove them one at a time from the outside; order of removal, re-entrancy and unmounting while open are a history space.',
        files: [S + 'overlay-callback-store.ts', K + 'overlay-callback/overlay-callback-composable.ts'],
        mech: [['ordered overlay stack with run/push/pop/remove/clear', S + 'overlay-callback-store.ts'], ['activation watcher', K + 'overlay-callback/overlay-callback-composable.ts']],
        obs: ['handler invocations per key event', 'open/close notifications'],
    },
    {
        id: 'P02',
        title: 'Each container shows exactly its open modals, in opening order',
        statement:
            'In every container the visible modals are exactly those opened there and not yet closed, in the order they were opened. Closing the latest modal, closing one by id, pressing Escape, clicking the backdrop and clearing a container remove exactly the modal(s) they name, even when closes overlap in time or other modals are opened or closed while a close is being decided. Every removed modal gets exactly one close notification and stops receiving events.',
        over: ['histories', 'schedules'],
        q: 'every interleaving of open, close, close-by-id, Escape, backdrop click, clear and completion of pending close guards over several containers',
        why: 'No unit test of the modal service exists; overlap of an asynchronous close with other operations is a schedule space.',
        files: [L + 'modal-plugin/modal-plugin.ts', S + 'container-store.ts', C + 'vs-modal/VsModalView.vue', C + 'vs-modal/VsModalNode.vue', 'packages/vlossom/src/framework/OverlayWrapper.vue'],
        mech: [['modal service', L + 'modal-plugin/modal-plugin.ts'], ['per-container list', S + 'container-store.ts'], ['modal node overlay registration', C + 'vs-modal/VsModalNode.vue']],
        obs: ['rendered modals per container', 'close callbacks', 'events delivered to modals'],
    },
    {
        id: 'P03',
        title: 'A modal closes exactly when its close guard allows it',
        statement:
            'A close request through the service, Escape or the backdrop asks the modal\'s close guard and closes the modal only if the guard (answering at once or later) does not answer false; the request reports whether the modal closed. Escape and backdrop requests are ignored altogether when the modal disables them. Clearing a container ignores the guards.',
        over: ['schedules', 'configurations'],
        q: 'every modal configuration (guard kind, Escape and backdrop options) and every order of requests and guard answers',
        why: 'Guards are asynchronous; tests only cover an immediately resolved guard on a single modal.',
        files: [L + 'modal-plugin/modal-plugin.ts', C + 'vs-modal/VsModalNode.vue', C + 'vs-modal/VsModal.vue'],
        mech: [['guard evaluation in the service', L + 'modal-plugin/modal-plugin.ts'], ['guard evaluation in the modal node', C + 'vs-modal/VsModalNode.vue']],
        obs: ['result of the close request', 'rendered modals'],
    },
    {
        id: 'P04',
        title: 'Every alert, confirm and prompt settles once with the answer given',
        statement:
            'Each alert, confirm or prompt dialog settles exactly once, and with the answer given to that very dialog: true or the entered value for OK and Enter, false or null for cancel, Escape, backdrop or being cleared away. A prompt whose input is invalid stays open and unsettled when confirmed. Answering one dialog never settles or closes another, whichever dialogs are open and in whatever order and container they are answered.',
        over: ['histories', 'inputs'],
        q: 'every sequence of opening and answering dialogs by button, key, backdrop or clear, over several dialogs and containers',
        why: 'Tests open a single dialog; which dialog an answer goes to only matters with several.',
        files: [L + 'alert-plugin/alert-plugin.ts', L + 'confirm-plugin/confirm-plugin.ts', L + 'prompt-plugin/prompt-plugin.ts', L + 'modal-plugin/modal-plugin.ts'],
        mech: [['dialog callbacks and button handlers', L + 'confirm-plugin/confirm-plugin.ts'], ['prompt validation', L + 'prompt-plugin/prompt-plugin.ts']],
        obs: ['promise settlement', 'visible dialogs'],
    },
    {
        id: 'P05',
        title: 'Toasts stay for exactly their lifetime, grouped by position',
        statement:
            'A toast is visible from the moment it is shown until it is closed by hand, its container is cleared, or its timeout elapses while automatic closing is on; while the pointer rests on it the timeout does not remove it, and it leaves when the pointer does. Removing one toast never removes, delays or reorders another. Toasts appear in their own container and position group in showing order.',
        over: ['histories', 'schedules'],
        q: 'every interleaving of show, timer expiry, hover, leave, close, remove and clear over several toasts and containers',
        why: 'Timers of several toasts interleave with user actions; tests check one toast at a time.',
        files: [L + 'toast-plugin/toast-plugin.ts', C + 'vs-toast/VsToast.vue', C + 'vs-toast/VsToastView.vue', S + 'container-store.ts'],
        mech: [['auto close timer and hover hold', C + 'vs-toast/VsToast.vue'], ['grouping', C + 'vs-toast/VsToastView.vue']],
        obs: ['rendered toasts per container and position'],
    },
    {
        id: 'P06',
        title: 'Bound modals and drawers agree with their bound open flag',
        statement:
            'A modal or drawer bound to an open flag is shown exactly when, once pending updates and close guards have settled, the flag is true; closing by Escape, backdrop, guard-approved flag change or service updates the flag, and a rejected close turns the flag back to true. Open and close events alternate and match the visible transitions. This includes a flag that is true from the start and flags toggled repeatedly.',
        over: ['histories', 'configurations'],
        q: 'every sequence of flag changes, Escape, backdrop clicks, guard answers and unmounting',
        why: 'The flag and the visible state are synchronised by chained watchers; tests toggle once.',
        files: [C + 'vs-modal/VsModal.vue', C + 'vs-drawer/VsDrawer.vue', K + 'overlay-callback/overlay-callback-composable.ts'],
        mech: [['flag watchers', C + 'vs-modal/VsModal.vue'], ['drawer open/close', C + 'vs-drawer/VsDrawer.vue']],
        obs: ['emitted flag updates and events', 'rendered DOM'],
    },
    {
        id: 'P07',
        title: 'Validity always reflects the current value and rules',
        statement:
            'Once the checks triggered by the latest change have answered, a field is valid exactly when every applicable rule accepts its current value, and its shown messages are exactly those produced for the current value. Answers of asynchronous rules or messages started for an older value or an older rule list never affect the result, whatever order answers arrive in. Built-in rules apply unless switched off.',
        over: ['schedules', 'histories'],
        q: 'every order of value changes, rule list changes and completions of asynchronous rule and message checks',
        why: 'Tests await each check before the next change; overlapping checks form a schedule space.',
        files: [K + 'input-rules/input-rules-composable.ts', K + 'input-messages/input-messages-composable.ts', K + 'input/input-composable.ts'],
        mech: [['rule evaluation', K + 'input-rules/input-rules-composable.ts'], ['message evaluation', K + 'input-messages/input-messages-composable.ts']],
        obs: ['valid update', 'rendered messages'],
    },
    {
        id: 'P08',
        title: 'A form is valid and changed exactly as its current fields are',
        statement:
            'A form is valid exactly when every field currently inside it is valid, and changed exactly when some field currently inside it is changed, through fields appearing, disappearing, being renamed and changing. Asking the form to validate makes every field reveal its errors and reports the overall validity; clearing the form resets every field. Form-wide disabled and read-only apply to every field inside.',
        over: ['histories', 'configurations'],
        q: 'every sequence of mounting, unmounting, renaming, editing, validating and clearing fields',
        why: 'The aggregate is maintained incrementally by events; tests mount a fixed set of fields.',
        files: [C + 'vs-form/VsForm.vue', S + 'form-store.ts', K + 'input-form/input-form-composable.ts'],
        mech: [['per-field registry', S + 'form-store.ts'], ['field registration', K + 'input-form/input-form-composable.ts']],
        obs: ['form valid and changed updates', 'validate() result', 'field messages'],
    },
    {
        id: 'P09',
        title: 'Text, number and multi-line fields mirror their bound value',
        statement:
            'After any mix of typing, clearing and outside assignment, the text shown by a text, number or multi-line field and the value bound to it agree: what the user typed is what is bound after the configured text transformations, numbers are bound as numbers and an empty number field as no value. An outside assignment is shown and does not bounce back a different value. A change event is emitted for each user-visible change of value and for nothing else.',
        over: ['histories', 'inputs'],
        q: 'every sequence of typing, clear and assignment over representative values and text transformations',
        why: 'Two watchers copy the value in opposite directions; tests exercise one direction at a time.',
        files: [K + 'input/input-composable.ts', C + 'vs-input/VsInput.vue', C + 'vs-textarea/VsTextarea.vue', K + 'string-modifier/string-modifier-composable.ts'],
        mech: [['two way watchers', K + 'input/input-composable.ts'], ['value conversion', C + 'vs-input/VsInput.vue']],
        obs: ['model updates', 'rendered value', 'change events'],
    },
    {
        id: 'P10',
        title: 'Disabled and read-only controls never change by user action',
        statement:
            'While a control is disabled or read-only, by its own setting or its form\'s, no click, key press, typing or chip removal changes its bound value; outside assignment and programmatic clearing still work. As soon as the restriction is lifted user actions work again.',
        over: ['histories', 'configurations'],
        q: 'every input kind, every combination of own and form-level restrictions, every user action, at any point of a history',
        why: 'Each control guards each handler separately; tests try one handler per control.',
        files: [C + 'vs-select/VsSelect.vue', C + 'vs-checkbox/VsCheckbox.vue', C + 'vs-radio/VsRadio.vue', C + 'vs-switch/VsSwitch.vue', C + 'vs-input/VsInput.vue', C + 'vs-textarea/VsTextarea.vue', C + 'vs-file-drop/VsFileDrop.vue'],
        mech: [['computed restriction', K + 'input/input-composable.ts'], ['per handler guards', C + 'vs-select/VsSelect.vue']],
        obs: ['model updates'],
    },
    {
        id: 'P11',
        title: 'A change guard decides every toggle, and no toggle is lost',
        statement:
            'When a checkbox, radio, switch or a set of them has a change guard, a user\'s toggle takes effect only if the guard (answering at once or later) does not answer false, and a vetoed toggle leaves both value and appearance as they were. The guard is told the values before and after. Overlapping toggles whose guards answer in any order each take effect as if decided one by one.',
        over: ['schedules', 'histories'],
        q: 'every interleaving of toggles, guard answers and outside assignments',
        why: 'Guards are asynchronous; tests await each one.',
        files: [C + 'vs-checkbox/VsCheckbox.vue', C + 'vs-checkbox/VsCheckboxSet.vue', C + 'vs-radio/VsRadio.vue', C + 'vs-radio/VsRadioSet.vue', C + 'vs-switch/VsSwitch.vue'],
        mech: [['guarded toggle', C + 'vs-checkbox/VsCheckbox.vue']],
        obs: ['model updates', 'checked state of the native control'],
    },
    {
        id: 'P12',
        title: 'Checkboxes, radios and switches reflect the value they are bound to',
        statement:
            'A checkbox, switch or radio appears checked exactly when its bound value equals, or in multiple mode contains, the value it stands for. Toggling it changes only the presence of that value: other members keep their presence and order and no member is ever duplicated. Clearing gives the unchecked value.',
        over: ['histories', 'inputs'],
        q: 'every sequence of toggles, outside assignments and clears over scalar, object and array values with several controls bound to one value',
        why: 'Tests use a single control with booleans or strings.',
        files: [K + 'value-matcher/value-matcher-composable.ts', C + 'vs-checkbox/VsCheckbox.vue', C + 'vs-switch/VsSwitch.vue', C + 'vs-radio/VsRadio.vue', C + 'vs-checkbox/VsCheckboxSet.vue', C + 'vs-radio/VsRadioSet.vue'],
        mech: [['value matching', K + 'value-matcher/value-matcher-composable.ts']],
        obs: ['model updates', 'checked state'],
    },
    {
        id: 'P13',
        title: 'A select holds only offered options and offers only eligible ones',
        statement:
            'The value of a select is at all times one of the currently offered options (or none), in multiple mode a duplicate-free list of them; it always matches the highlighted options and the displayed label(s). User actions add or remove exactly the option acted on, never a disabled one (Enter and Space act on the option the arrow keys or the pointer went to last), and select-all adds or removes exactly the enabled options matching the current search. When options change, values no longer offered are dropped and the others are kept.',
        over: ['histories', 'configurations'],
        q: 'every sequence of opening, clicking, keyboard choice, searching, select-all, chip removal, outside assignment and option replacement, single and multiple',
        why: 'Two-way synchronisation between value and highlighted options with asynchronous search; tests do single steps.',
        files: [C + 'vs-select/VsSelect.vue', C + 'vs-select/composables/select-value-composable.ts', C + 'vs-select/composables/select-keyboard-composable.ts', C + 'vs-select/composables/select-search-composable.ts', K + 'option-list/option-list-composable.ts', K + 'input-option/input-option-composable.ts', K + 'focusable/focusable-composable.ts'],
        mech: [['value and selection synchronisation', C + 'vs-select/composables/select-value-composable.ts']],
        obs: ['model updates', 'aria-selected', 'trigger label'],
    },
    {
        id: 'P14',
        title: 'Tabs and steps only land on enabled entries',
        statement:
            'Clicking, arrow keys, Home and End move the selected tab or step only to an enabled entry within the list, the nearest enabled one in the direction of movement, and leave it where it is when there is none. The bound index always equals the highlighted entry; shrinking the list below it or assigning an index outside it clears the selection.',
        over: ['histories', 'configurations'],
        q: 'every disabled pattern, list length, and sequence of key, click, assignment and list change',
        why: 'Tests use one list with one disabled item.',
        files: [K + 'list-index-selector/list-index-selector-composable.ts', C + 'vs-tabs/VsTabs.vue', C + 'vs-steps/VsSteps.vue'],
        mech: [['index selector', K + 'list-index-selector/list-index-selector-composable.ts']],
        obs: ['model updates', 'selected class / aria-selected'],
    },
    {
        id: 'P15',
        title: 'Pagination stays in range and always shows the current page',
        statement:
            'The page selected by clicking numbers, previous/next or first/last is always an existing page and the one asked for; edge buttons never move past the ends. The row of page numbers is contiguous, has the configured length or all pages if there are fewer, and contains the current page. The bound page equals the highlighted one.',
        over: ['inputs', 'histories'],
        q: 'every page count, window length, current page and sequence of clicks and assignments',
        why: 'Window arithmetic depends on three numbers; tests use a few examples.',
        files: [C + 'vs-pagination/VsPagination.vue', K + 'list-index-selector/list-index-selector-composable.ts'],
        mech: [['page window', C + 'vs-pagination/VsPagination.vue']],
        obs: ['rendered page buttons', 'model updates'],
    },
    {
        id: 'P16',
        title: 'A table shows the right page of its filtered, sorted rows',
        statement:
            'The rows a table displays are exactly the current page of its items after keeping those that match the search and ordering them by the active sort column and direction, ties keeping item order. Changing items, search, sort, page or page size in any order leads to the same rows as starting afresh with the final settings, and the reported totals agree with the rows that match.',
        over: ['histories', 'inputs'],
        q: 'every sequence of item replacement, search, sort click, page and page-size change over small tables',
        why: 'Tests check each stage by itself; order of operations and combinations are a history space.',
        files: [
            C + 'vs-table/composables/table-composable.ts',
            C + 'vs-table/composables/table-sort-composable.ts',
            C + 'vs-table/composables/table-search-composable.ts',
            C + 'vs-table/composables/table-pagination-composable.ts',
            C + 'vs-table/models/table-cell-builder.ts',
            C + 'vs-table/VsTable.vue',
            C + 'vs-table/VsTablePagination.vue',
        ],
        mech: [['filter, sort and slice pipeline', C + 'vs-table/composables']],
        obs: ['rendered rows', 'emitted page and paged items'],
    },
    {
        id: 'P17',
        title: 'Table row selection toggles exactly the rows acted on',
        statement:
            'Checking or unchecking a row adds or removes exactly that item from the bound selection, keeping the others in order, and the header checkbox adds or removes exactly the selectable rows. Row checkboxes always show whether their item is in the bound selection, and the header checkbox is checked exactly when all selectable rows are. Paging, sorting and searching never alter the selection.',
        over: ['histories', 'configurations'],
        q: 'every sequence of row and header toggles, page, sort, search and selection assignments, with rows that are not selectable',
        why: 'Selection is a list maintained across page and sort changes; tests stay on one page.',
        files: [C + 'vs-table/composables', C + 'vs-table/VsTable.vue', C + 'vs-table/VsTableHeader.vue', C + 'vs-table/VsTableBody.vue'],
        mech: [['selection composable', C + 'vs-table/composables']],
        obs: ['selected items update', 'row and header checkbox state'],
    },
    {
        id: 'P18',
        title: 'Scroll locking is restored when the last holder releases it',
        statement:
            'A container is scroll-locked exactly while at least one holder has locked and not yet released it, whatever order holders lock and release in and however these fall relative to animation frames. When the last holder releases it, the container\'s own overflow and padding styles are back to what they were before the first lock.',
        over: ['histories', 'schedules'],
        q: 'every order of lock and release by several holders, repeated, relative to frames, and every initial style',
        why: 'Tests lock and unlock one holder and wait for the frame.',
        files: [K + 'scroll-lock/scroll-lock-composable.ts'],
        mech: [['save and restore of container styles', K + 'scroll-lock/scroll-lock-composable.ts']],
        obs: ['container inline style'],
    },
    {
        id: 'P19',
        title: 'A focus trap keeps Tab inside and gives focus back',
        statement:
            'While an enabled focus trap is present, Tab from its last usable element goes to its first and Shift+Tab from the first to the last, counting only elements that can take focus at that moment; a disabled trap leaves Tab alone. When the trap goes away, focus returns to the element that had it when the trap appeared.',
        over: ['histories', 'configurations'],
        q: 'every arrangement of usable, hidden and disabled elements, changes of it, enabling and disabling',
        why: 'Tests use two enabled buttons that never change.',
        files: [C + 'vs-focus-trap/VsFocusTrap.vue'],
        mech: [['focusable lookup and key handler', C + 'vs-focus-trap/VsFocusTrap.vue']],
        obs: ['document.activeElement', 'default prevented'],
    },
    {
        id: 'P20',
        title: 'Tooltips and floating panels follow their trigger and clean up',
        statement:
            'After the configured delays have passed a tooltip is shown exactly when its trigger (hover, focus or click mode, subject to being disabled) asks for it, whatever pattern of entering, leaving, clicking, Escape and disabling came before. Nothing appears or stays behind after the component is removed.',
        over: ['schedules', 'histories'],
        q: 'every interleaving of trigger events, delay expiry, disabling and unmounting',
        why: 'Enter and leave delays race; tests wait for each to finish.',
        files: [C + 'vs-tooltip/VsTooltip.vue', C + 'vs-floating/VsFloating.vue', K + 'positioning/positioning-composable.ts'],
        mech: [['delay timers', C + 'vs-tooltip/VsTooltip.vue'], ['appear/disappear', K + 'positioning/positioning-composable.ts']],
        obs: ['rendered panel', 'emitted flag'],
    },
    {
        id: 'P21',
        title: 'The layout reserves space for exactly the bars it contains',
        statement:
            'The content area of a layout is padded on each side by exactly the size of the header, footer and drawers that currently take space on that side (pinned or fixed ones, and drawers only while open and set to push content), and not otherwise; an open layout drawer keeps clear of header and footer in the same way. This holds through bars being added, removed, opened, closed or repositioned, and a closed drawer takes nothing from another on its side.',
        over: ['histories', 'configurations'],
        q: 'every combination and sequence of header, footer and drawer presence, position, size and open state',
        why: 'Tests check each bar alone and never remove one.',
        files: [S + 'layout-store.ts', C + 'vs-layout/VsLayout.vue', C + 'vs-container/VsContainer.vue', C + 'vs-header/VsHeader.vue', C + 'vs-footer/VsFooter.vue', C + 'vs-drawer/VsDrawer.vue', K + 'layout-child/layout-child-composable.ts'],
        mech: [['layout store', S + 'layout-store.ts']],
        obs: ['container inline padding'],
    },
    {
        id: 'P22',
        title: 'The theme in effect, the page marker and the saved choice agree',
        statement:
            'At start-up a saved choice wins, otherwise a dark system preference or a dark default gives dark, otherwise light. After any sequence of assigning and toggling, the reported theme and the page\'s dark marker agree, and what a toggle chose is what the next start-up uses.',
        over: ['histories', 'configurations'],
        q: 'every combination of saved choice, system preference and default, followed by any sequence of assignments, toggles and restarts',
        why: 'Tests stub storage and check single calls.',
        files: ['packages/vlossom/src/framework/vlossom-class.ts', S + 'options-store.ts', C + 'vs-theme-button/VsThemeButton.vue'],
        mech: [['theme resolution', 'packages/vlossom/src/framework/vlossom-class.ts']],
        obs: ['theme getter', 'document class', 'local storage'],
    },
    {
        id: 'P23',
        title: 'Color schemes and style sets resolve by the documented precedence',
        statement:
            'The color scheme of a component is its own setting, else the global one for that component, else the global default, else none. Its styles are the built-in base overridden by the named preset or given style set, overridden by what the component itself imposes, merged key by key at every depth. Both follow later changes of any of these sources.',
        over: ['configurations', 'histories'],
        q: 'every combination of the sources present or absent, nested keys, and sequence of changes',
        why: 'Precedence over four sources with deep merging; tests check selected pairs.',
        files: [K + 'color-scheme/color-scheme-composable.ts', K + 'style-set/style-set-composable.ts', S + 'options-store.ts'],
        mech: [['scheme lookup', K + 'color-scheme/color-scheme-composable.ts'], ['style merge', K + 'style-set/style-set-composable.ts']],
        obs: ['computed scheme class', 'resolved style set and inline style'],
    },
    {
        id: 'P24',
        title: 'Grouped lists show every item once, groups in the declared order',
        statement:
            'A grouped list shows every item exactly once and in item order inside its group; declared groups come first in the declared order, other groups follow in order of first appearance, ungrouped items come last. This holds for any items, grouping function and declared order, including repeated or unused names, and after any of them change.',
        over: ['inputs', 'histories'],
        q: 'every small list of items, grouping and declared order, and replacement of either',
        why: 'Tests use one list with distinct groups.',
        files: [C + 'vs-grouped-list/VsGroupedList.vue'],
        mech: [['grouping', C + 'vs-grouped-list']],
        obs: ['rendered groups and items'],
    },
    {
        id: 'P25',
        title: 'Changed and cleared states of a field track the user',
        statement:
            'A field becomes changed when its value differs from before after it has been set up, and clearing it gives it its empty value, hides its errors and makes it unchanged; a later edit makes it changed again. Errors are shown only after the user changed the value or validation was requested, and stay shown until cleared.',
        over: ['histories', 'configurations'],
        q: 'every sequence of edits, assignments, validate and clear for each input kind',
        why: 'Clear completes on a later tick and races with watchers; tests check it once per field.',
        files: [K + 'input/input-composable.ts', K + 'input-messages/input-messages-composable.ts'],
        mech: [['changed flag, clear and message visibility', K + 'input/input-composable.ts']],
        obs: ['changed updates', 'rendered messages and error state'],
    },
    {
        id: 'P26',
        title: 'Built-in field rules accept exactly the permitted values',
        statement:
            'A field with built-in constraints is valid exactly when its value meets them as they are now: required fields hold a value (zero and false are values), numbers, dates and lengths lie within their limits inclusively, the number of chosen options or checked boxes lies within its limits, and files match the accepted types. Optional numbers, dates, single choices and file lists may be empty.',
        over: ['inputs', 'configurations'],
        q: 'every combination of constraint settings and boundary values for each input kind',
        why: 'Boundary values times settings; tests pick a few.',
        files: [C + 'vs-input/vs-input-rules.ts', C + 'vs-textarea/vs-textarea-rules.ts', C + 'vs-select/vs-select-rules.ts', C + 'vs-file-drop/vs-file-drop-rules.ts', C + 'vs-date-picker/vs-date-picker-rules.ts'],
        mech: [['rule functions', C + 'vs-input/vs-input-rules.ts']],
        obs: ['valid update', 'messages'],
    },
    {
        id: 'P27',
        title: 'Registry data survives faults: failures are reported, never remembered',
        statement:
            'A metadata request to the assistant server answers with the repository\'s data for the requested version or reports an error or partial result; once the repository answers again, the next request returns the full data. A failed fetch is never remembered as an empty or fallback answer, every answer names the version it was asked for and the one its data comes from, and data of one version is never served for another.',
        over: ['fault_sequences', 'histories'],
        q: 'every placement of transient network failures over sequences of requests for several versions',
        why: 'Tests stub a network that always answers.',
        files: [M + 'services/github-registry-service.ts', M + 'services/github-client.ts', M + 'services/github-reference-service.ts'],
        mech: [['promise caches cleared on rejection', M + 'services/github-registry-service.ts']],
        obs: ['results of registry calls', 'requests issued'],
    },
    {
        id: 'P28',
        title: 'Version detection and support verdicts follow version order',
        statement:
            'The version used for a request is the explicitly given one, else the one declared in the project manifest, and a range is read as the concrete version it names; anything else is unknown and says so. An entry is supported exactly when the detected version is at least the one it appeared in, comparing numerically part by part, and unknown when either side is unknown.',
        over: ['inputs'],
        q: 'every combination of given version, manifest entry and entry version over representative version strings',
        why: 'String forms times comparisons; tests use two or three.',
        files: [M + 'internal/version/version-service.ts'],
        mech: [['version parsing and comparison', M + 'internal/version/version-service.ts']],
        obs: ['version context', 'support status'],
    },
    {
        id: 'P29',
        title: 'Usage validation never calls unchecked or unsupported code valid',
        statement:
            'The validator reports code as valid only if it checked it and found no error: missing code or unavailable metadata is never valid. Every use of an unknown component, property, slot, custom event or two-way binding, every missing required property and every component newer than the project\'s version is reported, each exactly once, and correct uses are not; markup in comments and imported enums and types are no uses.',
        over: ['programs', 'fault_sequences'],
        q: 'every small template over correct and incorrect uses, versions and metadata failures',
        why: 'Templates combine independently right and wrong uses; tests hold fixed snippets.',
        files: [M + 'internal/validation/validate-vlossom-usage.ts', M + 'internal/validation/sfc-validator.ts'],
        mech: [['template checks', M + 'internal/validation/sfc-validator.ts']],
        obs: ['validation result'],
    },
    {
        id: 'P30',
        title: 'Call traces number and attach every step to its workflow',
        statement:
            'Every assistant tool response carries the steps of the current workflow, numbered from one without gaps; search and scaffold steps are roots and every other step is attached to the latest root before it. Per-tool counts and total time agree with the steps. A search, or an idle period longer than the limit, begins a new workflow.',
        over: ['histories'],
        q: 'every sequence of starting and follow-up calls and idle gaps',
        why: 'State is carried across calls; tests make one or two.',
        files: [M + 'utils/mcp-response.ts', M + 'tools/search-vlossom.ts', M + 'tools/scaffold-vlossom-code.ts', M + 'tools/get-vlossom-reference.ts', M + 'tools/validate-vlossom-usage.ts'],
        mech: [['session tracker', M + 'utils/mcp-response.ts']],
        obs: ['response metadata'],
    },
    {
        id: 'P31',
        title: 'A floating panel sits beside its target where asked',
        statement:
            'A floating panel is placed on the requested side of its target with the configured distance and alignment, or on the opposite side when it does not fit and there is more room there. After its target has come to rest following any scroll, resize or change of size, it is placed anew; a closed one is not touched any more.',
        over: ['inputs', 'schedules', 'configurations'],
        q: 'every placement, alignment and page position with every pattern of scrolls and resizes over time',
        why: 'Tests run without geometry and never let a second event arrive while the first is being handled.',
        files: [K + 'positioning/positioning-composable.ts', C + 'vs-floating/VsFloating.vue'],
        mech: [['position computation and throttling', K + 'positioning/positioning-composable.ts']],
        obs: ['inline position of the panel'],
    },
    {
        id: 'P32',
        title: 'A file field takes or refuses lots of files as a whole',
        statement:
            'Files chosen in the dialog or dropped replace the value if they satisfy the single-file, minimum and maximum limits, and otherwise leave it as it was with one message saying so. Removing one file removes exactly that one, also among files of the same name; clearing removes all and the messages. Files of a kind that is not accepted make the field invalid. The displayed files, the bound value and the change events agree at all times, and a disabled field takes nothing. No value at all (null) counts as no files.',
        over: ['histories', 'configurations'],
        q: 'every sequence of dialogs, drops, removals, clearings and assignments, for every combination of limits, accepted kinds and multiplicity',
        why: 'Tests choose files once per configuration; refusals followed by other steps are histories.',
        files: [C + 'vs-file-drop/VsFileDrop.vue', C + 'vs-file-drop/vs-file-drop-rules.ts'],
        mech: [['lots of files', C + 'vs-file-drop/VsFileDrop.vue'], ['limits and kinds', C + 'vs-file-drop/vs-file-drop-rules.ts']],
        obs: ['bound files', 'displayed files', 'messages', 'change and drop events', 'drag highlight'],
    },
    {
        id: 'P33',
        title: 'A search field announces the last text once typing has paused',
        statement:
            'Every change of the text or of the case and pattern switches is announced once, with the text then in the field, when nothing has changed for the delay; until then the bound text is not updated. Matching always uses the current text and switches: an empty text matches everything, patterns are regular expressions when switched on, and an invalid pattern is searched for literally. Switches follow user and page alike.',
        over: ['histories', 'schedules'],
        q: 'every sequence of typing, clearing, assigning, switching and waiting',
        why: 'Tests change one thing and wait the whole delay.',
        files: [C + 'vs-search-input/VsSearchInput.vue'],
        mech: [['debounced announcement and matching', C + 'vs-search-input/VsSearchInput.vue']],
        obs: ['search events', 'bound text and switches', 'match results', 'appearance of the switches'],
    },
    {
        id: 'P34',
        title: 'Only children in view are marked as visible',
        statement:
            'A visible-render container marks every child as visible or not as last reported by the browser, for the children present now, whatever was added, removed or replaced; switched off it marks all of them visible. At any time at most one observer is at work, with the current margin and the nearest scrolling ancestor, and none once switched off or unmounted. Scrolling to a child marks it visible and scrolls the right element to the right place.',
        over: ['histories', 'configurations'],
        q: 'every sequence of additions, removals, replacements, scrolls, switchings and changes of margin',
        why: 'jsdom has no intersection observer, so tests only see calls of a mock.',
        files: [C + 'vs-visible-render/VsVisibleRender.vue', U + 'dom-util.ts'],
        mech: [['observers', C + 'vs-visible-render/VsVisibleRender.vue'], ['scrolling ancestors', U + 'dom-util.ts']],
        obs: ['marks of the children', 'live observers and their options', 'scroll calls'],
    },
    {
        id: 'P35',
        title: 'An image shows its picture, else its fallback, else an icon',
        statement:
            'The picture asked for is loaded (when lazy, once it comes into view); if it fails the fallback is loaded, and the icon is shown exactly when everything there is has failed. Each failure is reported once. Another picture, or another fallback, starts over without forgetting what is known to have failed. Until something was loaded or has failed the placeholder is shown unless it is switched off.',
        over: ['histories', 'fault_sequences'],
        q: 'every order of loads, failures, coming into view and changes of picture and fallback',
        why: 'Tests fire one load or error event.',
        files: [C + 'vs-image/VsImage.vue'],
        mech: [['loading states', C + 'vs-image/VsImage.vue']],
        obs: ['address given to the browser', 'what is shown', 'error events', 'observers'],
    },
    {
        id: 'P36',
        title: 'A project report names exactly what is missing and what the policy forbids',
        statement:
            'Validating a project reports each missing dependency and each missing part of the setup once, an unreadable package file and a missing setup file as themselves, and, unless the policy is off, every covered native control, every tag and import of another component library and every inline style on a component, with the file and line it stands on, but nothing in comments; these are errors under the strict policy (which is the default) and warnings otherwise. Other libraries among the dependencies are an error under the strict policy and named as advice under the lenient one. A report is valid exactly if it has no errors, and never if nothing was given to check. What an issue suggests to look up exists.',
        over: ['programs', 'configurations'],
        q: 'every project over the dependencies, setup parts, entry files, uses and policies, reached by any sequence of edits',
        why: 'Conditions combine independently; tests hold a few fixed projects and need the network.',
        files: [M + 'internal/validation/project-setup-validator.ts', M + 'internal/validation/vlossom-first-validator.ts', M + 'internal/validation/validate-vlossom-usage.ts', M + 'internal/search/coverage-resolver.ts'],
        mech: [['setup checks', M + 'internal/validation/project-setup-validator.ts'], ['policy', M + 'internal/validation/vlossom-first-validator.ts']],
        obs: ['validation result'],
    },
    {
        id: 'P37',
        title: 'A StyleSet is checked against its own interface, key by key',
        statement:
            'Every key of a StyleSet object that the interface of its component does not declare, every undeclared variable, every variable block or CSS property where the interface has none, every arbitrary CSS variable and every hardcoded colour (in hexadecimal or a colour function) is reported once on the line it stands on, however the object is laid out; comments, declared keys, CSS properties of interfaces that extend them, and the contents of children are not. The interface is that of the annotated type, otherwise of the component named as context; without either nothing is called valid. A generated StyleSet uses the declared keys and passes its own validation.',
        over: ['programs', 'configurations'],
        q: 'every StyleSet over fifteen pieces, nine ways to introduce it, two layouts, two kinds of interface and three versions',
        why: 'Tests hold two fixed objects and need the network.',
        files: [M + 'internal/validation/style-set-validator.ts', M + 'internal/scaffold/style-set-scaffolder.ts', M + 'services/github-registry-service.ts'],
        mech: [['key checks', M + 'internal/validation/style-set-validator.ts'], ['generation', M + 'internal/scaffold/style-set-scaffolder.ts']],
        obs: ['validation result', 'generated code'],
    },
    {
        id: 'P38',
        title: 'A scroll shadow is added once and taken back exactly',
        statement:
            'An element with the scroll shadow directive has the shadow exactly while the directive is on and the element could scroll when it was switched on, whatever else is rendered in between; its container type is then its own plus the scroll state. Once switched off or unmounted it has exactly the classes and the container type it would have without the directive.',
        over: ['histories', 'configurations'],
        q: 'every sequence of values, renderings, class changes, overflow changes and remountings, for elements with and without a container type',
        why: 'Tests call the hooks by hand, once, without rendering.',
        files: ['packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts', U + 'dom-util.ts'],
        mech: [['activation', 'packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts']],
        obs: ['classes and inline container type of the element'],
    },
    {
        id: 'P39',
        title: 'Row functions and open panels follow the item, not the place on the page',
        statement:
            'In a table with an `expand` slot, the button that opens a row, its checkbox and its state are those which `expandable`, `selectable` and `state` give for the item, its index among `items`, and the items, wherever the row is displayed after sorting, searching and paging. A panel opens or shuts only by the button of its own row: sorting, searching, paging, changing the columns and replacing the list leave the panels of the items that remain as they were.',
        over: ['histories'],
        q: 'every sequence of opening and shutting panels, item and column replacement, search, sort and page changes',
        why: 'Tests open one row of a table that is neither sorted nor paged.',
        files: [
            C + 'vs-table/composables/table-expand-composable.ts',
            C + 'vs-table/VsTableExpandCell.vue',
            C + 'vs-table/VsTableCheckboxCell.vue',
            C + 'vs-table/VsTableBodyRow.vue',
            C + 'vs-table/VsTableExpandedPanel.vue',
        ],
        mech: [['the set of expanded rows', C + 'vs-table/composables/table-expand-composable.ts']],
        obs: ['buttons, boxes, state classes and panels of the displayed rows', 'expand-row'],
    },
    {
        id: 'P40',
        title: 'Application-wide settings take effect when given and when assigned',
        statement:
            'Colour schemes, named style sets and the radius ratio given to `createVlossom` or assigned to the Vlossom instance later are what components use from then on and what the instance reports; a new assignment replaces the former one as a whole and leaves the other settings alone. The radius ratio is kept between 0 and 1 and sets the `--vs-radius-ratio` token of the page; if none is ever given, the token of the style sheets stays.',
        over: ['histories', 'configurations'],
        q: 'every combination of settings at creation, followed by every sequence of assignments',
        why: 'Tests read the settings back from the instance and never look at the page.',
        files: ['packages/vlossom/src/framework/vlossom-class.ts', S + 'options-store.ts'],
        mech: [['settings', S + 'options-store.ts']],
        obs: ['scheme class and inline style of a component', '`--vs-radius-ratio` of the page', 'settings read back'],
    },
    {
        id: 'P41',
        title: 'An accordion moves only by its own header, keys and binding',
        statement:
            'A click on the title, Enter or Space on the focused accordion and `toggle()` open or shut it, emit `toggle` once with the new state and update the bound flag; a disabled accordion ignores all of them and leaves the tab order, but follows its bound flag. The content is rendered exactly while open. Keys pressed in fields inside the title or the content, and clicks in the content, neither move it nor lose their default effect.',
        over: ['histories'],
        q: 'every sequence of clicks, keys in three places, assignments and disabling, with the flag bound or only given at first',
        why: 'Tests press keys on the accordion itself only; nothing is ever typed inside it.',
        files: [C + 'vs-accordion/VsAccordion.vue', C + 'vs-expandable/VsExpandable.vue'],
        mech: [['toggle', C + 'vs-accordion/VsAccordion.vue']],
        obs: ['open class', 'content in the page', 'bound flag', '`toggle` events', 'default prevented'],
    },
    {
        id: 'P42',
        title: 'An index view shows the child at its index, with its own state',
        statement:
            'An index view shows the child at the current index, counting neither blanks nor left-out (`v-if`) children and counting each child of a `v-for`; an index without a child shows nothing. The bound index and `updateIndex()` both set it, the latter also without a binding. The state of children that are not shown is kept with `keepAlive` and lost without; it never passes to another child.',
        over: ['histories'],
        q: 'every sequence of index changes, changes inside the children and children that come and go',
        why: 'Tests use stateless elements, so a child patched into another looks the same.',
        files: [C + 'vs-index-view/VsIndexView.vue'],
        mech: [['index', C + 'vs-index-view/VsIndexView.vue']],
        obs: ['the child shown', 'its state', 'bound index'],
    },
    {
        id: 'P43',
        title: 'A text wrap copies what it displays and opens only web links',
        statement:
            'The copy button writes the text displayed at that time to the clipboard and emits `copied` with it; without text, or if the clipboard refuses, nothing is emitted or marked. The copied mark stays for two seconds after the latest copy. The link button exists only with a link and opens it only if it is an absolute http or https address.',
        over: ['histories'],
        q: 'every sequence of texts, links, copies, refusals and seconds',
        why: 'Tests copy once, from a text that never changes.',
        files: [C + 'vs-text-wrap/VsTextWrap.vue', U + 'clipboard-util.ts'],
        mech: [['copy', C + 'vs-text-wrap/VsTextWrap.vue'], ['clipboard', U + 'clipboard-util.ts']],
        obs: ['clipboard writes', '`copied` events', 'copied mark', 'opened addresses'],
    },
    {
        id: 'P44',
        title: 'A date picker takes only values in the format of its type',
        statement:
            'Entries in the format of the type become the value; other entries emit `invalid` with the text and leave the value as it is. A value assigned in another format emits `invalid`, is displayed as blank and is not rewritten, also when the type changes, and is displayed again once the type fits. `clear` is emitted once when the user empties the field or `clear()` is called, and never for assignments by the page. Opening focuses the field and shows the picker of the browser if it can; a disabled or read-only picker does neither.',
        over: ['histories', 'faults'],
        q: 'every sequence of values, types, entries, clearing, locking and opening, with a browser picker that works, is missing or refuses',
        why: 'Tests look at single events; none counts `clear`, and the fallback is named in a test but never run.',
        files: [C + 'vs-date-picker/VsDatePicker.vue', C + 'vs-date-picker/constants.ts', C + 'vs-date-picker/vs-date-picker-rules.ts'],
        mech: [['formats', C + 'vs-date-picker/constants.ts']],
        obs: ['bound value', 'displayed value', '`invalid`, `clear` and `change` events', 'focus and picker calls'],
    },
    {
        id: 'P45',
        title: 'Responsive width and grid take the setting of the largest fitting size',
        statement:
            'A component with `width` or `grid` takes, in a container of each of the five sizes, the value given for the largest size that is not larger than the container, else the default (full width, twelve columns); a plain value applies to all sizes and numbers are pixels. Zero is a value, an empty one is not. Changes apply whether the object is replaced or changed in place, and width and grid do not affect each other.',
        over: ['histories', 'configurations'],
        q: 'every sequence of settings of up to two sizes, for every component that takes them',
        why: 'Tests pass fixed objects; settings never change, least of all in place.',
        files: [C + 'vs-responsive/VsResponsive.vue', C + 'vs-responsive/composables/responsive-composable.ts', U + 'string-util.ts'],
        mech: [['classes and variables', C + 'vs-responsive/composables/responsive-composable.ts']],
        obs: ['classes and variables of the element, read as the style sheet reads them'],
    },
    {
        id: 'P46',
        title: 'Lookups lead to references, resources and code that exist',
        statement:
            'A search of one kind returns what its names and descriptions match in the version of the project, at most as many as asked for (ten by default, fifty at most); a search of everything returns one kind or, when several match, asks back with the kinds and their counts. Every result can be followed to its reference in the same version, after a change of the version exactly those that exist there. Every resource address in an answer is one the server serves. Code scaffolded from components found is valid for the version, whatever the description says.',
        over: ['histories', 'inputs'],
        q: 'every sequence of searches, follow-ups, changes of version and scaffolds',
        why: 'The tests of the server need the network and check one answer at a time.',
        files: [M + 'internal/search/component-search-service.ts', M + 'internal/reference/reference-service.ts', M + 'internal/scaffold/component-usage-scaffolder.ts', M + 'internal/scaffold/scaffold-service.ts', M + 'resources/core-resources.ts'],
        mech: [['search', M + 'internal/search/component-search-service.ts']],
        obs: ['status, results and choices', 'references', 'resources read through the registered handlers', 'scaffolded code'],
    },
    {
        id: 'P47',
        title: 'Rendered content shows what its text or HTML says',
        statement:
            'Content given as a string without tags is shown literally. With elements it is shown as the browser reads it: the same words, spaces, tags, names and order, comments and stray end tags left out, whatever stands next to what. A component gets its properties, also when they change. Attributes are on the one outermost element, and any content may follow any other.',
        over: ['inputs', 'histories'],
        q: 'every string of up to three pieces, every change between them and a component',
        why: 'Tests render single elements; mixed text and tags, stray tags and later changes are not covered.',
        files: [C + 'vs-render/VsRender.vue'],
        mech: [['HTML to nodes', C + 'vs-render/VsRender.vue']],
        obs: ['serialised elements and text', 'attributes of the outermost element'],
    },
    {
        id: 'P48',
        title: 'Overlays have what their application has',
        statement:
            'Overlay views are rendered by one further application on the page. Components, directives, provided values, global properties (assigned, or defined by a getter that cannot be configured) and the error handler of the application are theirs too, whether they were there before the plugin was installed or came or changed later. A global property assigned inside an overlay counts for overlays only and can be assigned again. A second application on the page changes nothing.',
        over: ['histories'],
        q: 'every order of registrations, changes, installation, assignments, views and failures',
        why: 'The helper has no tests.',
        files: ['packages/vlossom/src/framework/overlay-helper.ts', 'packages/vlossom/src/framework/OverlayWrapper.vue', S + 'overlay-container-store.ts'],
        mech: [['context', 'packages/vlossom/src/framework/overlay-helper.ts']],
        obs: ['what a view in an overlay resolves, injects and reads', 'handler called', 'properties of the application'],
    },
    {
        id: 'P49',
        title: 'What stands around a field',
        statement:
            'Every field shows its label (the text given, or what the page puts in its place) unless noLabel is set, a star beside a shown label while the field is required, and the messages given unless noMessages is set. A hidden field is not displayed, a disabled one cannot be used, and its controls carry the id and the name it was given. Each of these settings takes effect whenever it changes, and none undoes another.',
        over: ['histories'],
        q: 'every order of changes of seven settings, for all ten fields, with and without a label of the page',
        why: 'The tests set one property at mount time, and not on every field.',
        files: [C + 'vs-input-wrapper/VsInputWrapper.vue', C + 'vs-radio/VsRadioSet.vue', C + 'vs-checkbox/VsCheckboxSet.vue', C + 'vs-switch/VsSwitch.vue', C + 'vs-date-picker/VsDatePicker.vue', K + 'input-messages/input-messages-composable.ts', K + 'input/input-composable.ts'],
        mech: [['frame', C + 'vs-input-wrapper/VsInputWrapper.vue'], ['messages', K + 'input-messages/input-messages-composable.ts']],
        obs: ['label, star and messages on the page', 'display', 'disabled, id and name of the controls'],
    },
    {
        id: 'P50',
        title: 'Options, their labels and their values',
        statement:
            'VsRadioSet, VsCheckboxSet and VsSelect call an option by its label field, however deep and also when it is 0 or empty, and show it whole when there is no such field. It stands for its value field, again also when that is 0, false or empty, or for itself. When the list of options changes, by a new list or in place, exactly the values no longer offered are dropped, with one change event; changing the label field changes names only. A select takes no value it does not offer; a set keeps one that may be offered later.',
        over: ['inputs', 'histories'],
        q: 'every order of choices, assignments, changes of the list and of the label field, for four kinds and five shapes of options',
        why: 'The tests change options once, as a new list of non-empty values.',
        files: [K + 'input-option/input-option-composable.ts', K + 'option-label-value/option-label-value-composable.ts', K + 'option-list/option-list-composable.ts', C + 'vs-select/VsSelect.vue', C + 'vs-radio/VsRadioSet.vue', C + 'vs-checkbox/VsCheckboxSet.vue'],
        mech: [['labels and values', K + 'option-label-value/option-label-value-composable.ts'], ['changed options', K + 'input-option/input-option-composable.ts']],
        obs: ['labels in order and which are chosen', 'bound value', 'change events'],
    },
    {
        id: 'P51',
        title: 'Cells of a table',
        statement:
            'A VsTable shows below each header what each item holds under the key of that header, whether columns are given as names, as paths into the item, as definitions or not at all. A transform of a definition gets the value and the item. Columns and items may be replaced, replaced by equal ones or changed in place at any time, and the cells follow. Without columns the headers are the keys of the items in the order in which they first appear. A click on a cell reports its key, value and place, and the very item that was given.',
        over: ['inputs', 'histories'],
        q: 'every order of changes of columns and items, for items with other keys, other orders of keys, missing and empty values',
        why: 'The tests build cells once from items of one shape.',
        files: [C + 'vs-table/models/table-cell-builder.ts', C + 'vs-table/models/table-model.ts', C + 'vs-table/models/strategy/no-column-def-cell-strategy.ts', C + 'vs-table/models/strategy/object-column-def-cell-strategy.ts', C + 'vs-table/models/strategy/string-column-def-cell-strategy.ts', C + 'vs-table/VsTableBodyRow.vue', C + 'vs-table/VsTableHeader.vue', C + 'vs-table/VsTableBody.vue'],
        mech: [['cells of a row', C + 'vs-table/models/strategy/object-column-def-cell-strategy.ts'], ['following changes', C + 'vs-table/models/table-cell-builder.ts']],
        obs: ['texts of headers', 'label, text and alignment of each cell', 'click-cell and click-row events'],
    },
    {
        id: 'P52',
        title: 'Scaffolds hold what they promise',
        statement:
            'A scaffold is made from the version the request names or its package file asks for, whatever was asked before. Components that version does not know, or that need a later one, are named and no code is given; without vlossom in the project only a project setup is given. Component code holds one tag per component asked for, in that order, with its required properties, its binding and its content as documented, imports each component once and its helpers when needed, and cannot be broken by its description. Component code, style sets and project setups pass the validation of the same server.',
        over: ['inputs', 'histories'],
        q: 'every request of eight kinds of projects, seven lists of components, four descriptions, formats and frameworks, after every other',
        why: 'The tests need the network and ask once.',
        files: [M + 'internal/scaffold/scaffold-service.ts', M + 'internal/scaffold/component-usage-scaffolder.ts', M + 'internal/scaffold/project-setup-scaffolder.ts', M + 'internal/scaffold/style-set-scaffolder.ts', M + 'internal/validation/validate-vlossom-usage.ts', M + 'internal/validation/validation-summary.ts'],
        mech: [['outcome of a request', M + 'internal/scaffold/scaffold-service.ts'], ['component code', M + 'internal/scaffold/component-usage-scaffolder.ts'], ['project setup', M + 'internal/scaffold/project-setup-scaffolder.ts']],
        obs: ['status, unknown and unsupported components', 'tags, imports and title of the code', 'result of validating it'],
    },
];

for (const p of P) {
    process.stdout.write(
        JSON.stringify({
            id: p.id,
            title: p.title,
            statement: p.statement,
            quantifier: { over: p.over, text: p.q },
            why_tests_cant: p.why,
            anchors: {
                files: p.files,
                mechanism: p.mech.map(([name, where]) => ({ name, where })),
                observe_at: p.obs,
                hook_needed: null,
            },
        }) + '\n',
    );
}
