// What decides each property: specifications, constants per tier, checked formulas, adapter.
export const CHECKS = {
    P01: {
        jobs: [
            {
                module: 'Overlay',
                adapter: 'overlay',
                constants: { N: 3, Keys: ['Escape', 'Enter'], Reactions: ['none', 'next', 'pop', 'clear'], WithRename: false },
                invariants: ['TypeOK', 'NoDuplicates'],
                properties: ['KeyToTop', 'NotifiedOnce', 'OrderKept'],
                thorough: { constants: { N: 4, Keys: ['Escape', 'Enter'], Reactions: ['none', 'next', 'clear'], WithRename: false } },
            },
            {
                name: 'OverlayRename',
                module: 'Overlay',
                adapter: 'overlay',
                constants: { N: 3, Keys: ['Escape', 'Enter'], Reactions: ['none'], WithRename: true },
                invariants: ['TypeOK', 'NoDuplicates'],
                properties: ['KeyToTop', 'NotifiedOnce', 'OrderKept'],
            },
        ],
    },
    P02: {
        jobs: [
            {
                name: 'ModalOverlap',
                module: 'Modal',
                adapter: 'modal',
                constants: { N: 3, Containers: ['body', '#box'], Guards: ['none', 'later'], EscOpts: [true], DimOpts: [true], MaxPend: 1 },
                invariants: ['TypeOK'],
                properties: ['OnlyNamed', 'OrderKept', 'GuardRespected'],
            },
            {
                name: 'ModalOverlap2',
                module: 'Modal',
                adapter: 'modal',
                constants: { N: 2, Containers: ['body', '#box'], Guards: ['none', 'later'], EscOpts: [true], DimOpts: [true], MaxPend: 2 },
                invariants: ['TypeOK'],
                properties: ['OnlyNamed', 'OrderKept', 'GuardRespected'],
                thorough: { constants: { N: 3, Containers: ['body', '#box'], Guards: ['none', 'later'], EscOpts: [true], DimOpts: [true], MaxPend: 2 } },
            },
        ],
    },
    P03: {
        jobs: [
            {
                name: 'ModalGuards',
                module: 'Modal',
                adapter: 'modal',
                constants: { N: 2, Containers: ['body'], Guards: ['none', 'yes', 'no', 'undef', 'later'], EscOpts: [true, false], DimOpts: [true, false], MaxPend: 1 },
                invariants: ['TypeOK'],
                properties: ['OnlyNamed', 'GuardRespected', 'OptionsRespected'],
                thorough: { constants: { N: 2, Containers: ['body'], Guards: ['none', 'yes', 'no', 'undef', 'later'], EscOpts: [true, false], DimOpts: [true, false], MaxPend: 2 } },
            },
            {
                name: 'ModalGuardsLate',
                module: 'Modal',
                adapter: 'modal',
                constants: { N: 2, Containers: ['body'], Guards: ['none', 'no', 'later'], EscOpts: [true], DimOpts: [true], MaxPend: 2 },
                invariants: ['TypeOK'],
                properties: ['OnlyNamed', 'GuardRespected', 'OptionsRespected'],
            },
        ],
    },
    P04: {
        jobs: [
            {
                name: 'DialogPairs',
                module: 'Dialog',
                adapter: 'dialog',
                constants: { N: 2, Kinds: ['plain', 'alert', 'confirm', 'prompt', 'number'], Containers: ['body', '#box'], Texts: ['', '7', '12'], Where: true },
                invariants: ['TypeOK'],
                properties: ['SettledOnce', 'OnlyNamed', 'OnlyTop', 'InvalidStays'],
            },
            {
                name: 'DialogTriples',
                module: 'Dialog',
                adapter: 'dialog',
                constants: { N: 3, Kinds: ['alert', 'confirm', 'prompt'], Containers: ['body'], Texts: ['', '7'], Where: false },
                invariants: ['TypeOK'],
                properties: ['SettledOnce', 'OnlyNamed', 'OnlyTop', 'InvalidStays'],
                thorough: { constants: { N: 3, Kinds: ['plain', 'alert', 'confirm', 'prompt', 'number'], Containers: ['body', '#box'], Texts: ['', '7'], Where: false } },
            },
        ],
    },
    P05: {
        jobs: [
            {
                name: 'ToastLife',
                module: 'Toast',
                adapter: 'toast',
                constants: { N: 2, Containers: ['body', '#late'], Positions: ['top-center'], Lives: [0, 1, 2], Late: ['#late'], WithModal: false },
                invariants: ['TypeOK', 'NoOverstay'],
                properties: ['OrderKept', 'OnlyNamed'],
            },
            {
                name: 'ToastGroups',
                module: 'Toast',
                adapter: 'toast',
                constants: { N: 3, Containers: ['body'], Positions: ['top-center', 'bottom-start'], Lives: [1, 2], Late: [], WithModal: false },
                invariants: ['TypeOK', 'NoOverstay'],
                properties: ['OrderKept', 'OnlyNamed'],
                thorough: { constants: { N: 3, Containers: ['body', '#box'], Positions: ['top-center', 'bottom-start'], Lives: [0, 1, 2], Late: [], WithModal: false } },
            },
            {
                name: 'ToastWithModal',
                module: 'Toast',
                adapter: 'toast',
                constants: { N: 2, Containers: ['body', '#box'], Positions: ['top-center'], Lives: [1], Late: [], WithModal: true },
                invariants: ['TypeOK', 'NoOverstay'],
                properties: ['OrderKept', 'OnlyNamed'],
            },
        ],
    },
    P06: {
        jobs: [
            {
                name: 'BoundModal',
                module: 'Bound',
                adapter: 'bound',
                constants: { Kinds: ['modal'], Guards: ['none', 'yes', 'no', 'later'], EscOpts: [true, false], DimOpts: [true, false], MaxPend: 2 },
                invariants: ['TypeOK', 'Agree'],
                properties: ['Matching', 'GuardAsked'],
                thorough: { constants: { Kinds: ['modal'], Guards: ['none', 'yes', 'no', 'later'], EscOpts: [true, false], DimOpts: [true, false], MaxPend: 3 } },
            },
            {
                name: 'BoundDrawer',
                module: 'Bound',
                adapter: 'bound',
                constants: { Kinds: ['drawer'], Guards: ['none'], EscOpts: [true, false], DimOpts: [true, false], MaxPend: 0 },
                invariants: ['TypeOK', 'Agree'],
                properties: ['Matching', 'GuardAsked'],
            },
        ],
    },
    P07: {
        jobs: [
            {
                name: 'FieldRules',
                module: 'Field',
                adapter: 'field',
                constants: { Kinds: ['input'], RuleLists: ['-', 'S', 'AB', 'SA', 'SB'], MsgLists: ['-'], MaxPend: 3, Toggle: true },
                invariants: ['TypeOK', 'ChangedShows'],
                properties: ['ShownStays', 'ChangedByEdit', 'Stale'],
                thorough: { constants: { Kinds: ['input', 'select', 'checkboxset'], RuleLists: ['-', 'S', 'A', 'AB', 'SA', 'SB'], MsgLists: ['-'], MaxPend: 4, Toggle: true } },
            },
            {
                name: 'FieldMessages',
                module: 'Field',
                adapter: 'field',
                constants: { Kinds: ['textarea'], RuleLists: ['A'], MsgLists: ['-', 'I', 'IL', 'LK', 'PL'], MaxPend: 3, Toggle: false },
                invariants: ['TypeOK', 'ChangedShows'],
                properties: ['ShownStays', 'ChangedByEdit', 'Stale'],
            },
        ],
    },
    P24: {
        jobs: [
            {
                module: 'Groups',
                adapter: 'groups',
                constants: { MaxItems: 3, MaxOrder: 2, Names: ['g', 'h'], Extra: ['unused', ''] },
                invariants: ['TypeOK', 'EveryItemOnce', 'UngroupedLast'],
                thorough: { constants: { MaxItems: 4, MaxOrder: 3, Names: ['g', 'h'], Extra: ['unused'] } },
            },
        ],
    },
    P25: {
        jobs: [
            {
                name: 'FieldKinds',
                module: 'Field',
                adapter: 'field',
                constants: {
                    Kinds: ['input', 'number', 'textarea', 'date', 'checkbox', 'checkboxset', 'radio', 'radioset', 'switch', 'select', 'multiselect', 'filedrop'],
                    RuleLists: ['-', 'S', 'A'], MsgLists: ['-'], MaxPend: 1, Toggle: false,
                },
                invariants: ['TypeOK', 'ChangedShows'],
                properties: ['ShownStays', 'ChangedByEdit', 'Stale'],
            },
        ],
    },
    P08: {
        jobs: [
            {
                name: 'FormFields',
                module: 'Form',
                adapter: 'form',
                constants: { N: 3, Names: false, Restrict: false, Twice: true },
                substitutions: { Kinds: 'Triple' },
                invariants: ['TypeOK'],
                properties: ['FrozenHolds', 'AbsentKept'],
            },
            {
                name: 'FormNames',
                module: 'Form',
                adapter: 'form',
                constants: { N: 2, Names: true, Restrict: false, Twice: true },
                substitutions: { Kinds: 'Pair' },
                invariants: ['TypeOK'],
                properties: ['FrozenHolds', 'AbsentKept'],
                thorough: { constants: { N: 3, Names: true, Restrict: false, Twice: true }, substitutions: { Kinds: 'Plain3' } },
            },
            {
                name: 'FormRestricted',
                module: 'Form',
                adapter: 'form',
                constants: { N: 2, Names: false, Restrict: true, Twice: false },
                substitutions: { Kinds: 'Mixes2' },
                invariants: ['TypeOK'],
                properties: ['FrozenHolds', 'AbsentKept'],
            },
        ],
    },
    P09: {
        jobs: [
            {
                module: 'Text',
                adapter: 'text',
                constants: { Kinds: ['text', 'password', 'textarea', 'number'], Mods: ['none', 'upper', 'lower', 'capitalize'] },
                invariants: ['TypeOK', 'Transformed'],
            },
        ],
    },
    P10: {
        jobs: [
            {
                module: 'Restrict',
                adapter: 'restrict',
                constants: {
                    Kinds: ['input', 'number', 'textarea', 'date', 'search', 'checkbox', 'checkboxset', 'radio', 'radioset', 'switch', 'toggle', 'select', 'multiselect', 'filedrop'],
                },
                invariants: ['TypeOK'],
                properties: ['Held'],
            },
        ],
    },
    P11: {
        jobs: [
            {
                name: 'GuardedToggles',
                module: 'Toggles',
                adapter: 'toggles',
                constants: { Kinds: ['check1', 'checkN', 'checkset', 'switch1', 'switchN', 'radioN', 'radioset'], Reps: ['plain', 'object'], Guards: ['now', 'later'], MaxPend: 2 },
                invariants: ['TypeOK', 'NoDuplicates'],
                properties: ['Vetoed', 'OnlyIts'],
            },
        ],
    },
    P12: {
        jobs: [
            {
                name: 'SingleToggles',
                module: 'Toggles',
                adapter: 'toggles',
                constants: { Kinds: ['check1', 'switch1'], Reps: ['plain', 'object', 'zero', 'swapped', 'nothing'], Guards: ['none'], MaxPend: 0 },
                invariants: ['TypeOK', 'NoDuplicates'],
                properties: ['Vetoed', 'OnlyIts'],
            },
            {
                name: 'SharedToggles',
                module: 'Toggles',
                adapter: 'toggles',
                constants: { Kinds: ['checkN', 'checkset', 'switchN', 'radioN', 'radioset'], Reps: ['plain', 'object', 'zero'], Guards: ['none'], MaxPend: 0 },
                invariants: ['TypeOK', 'NoDuplicates'],
                properties: ['Vetoed', 'OnlyIts'],
            },
        ],
    },
    P13: {
        jobs: [
            {
                name: 'SelectMulti',
                module: 'Select',
                adapter: 'select',
                constants: { Looks: ['multi', 'collapsed'], Searches: [true], Alls: [true], Lists: ['abc', 'bc', 'cab'], Terms: ['', 'ap'], Keys: false },
                substitutions: { DisSets: 'Two' },
                invariants: ['TypeOK'],
                properties: ['NotDisabled', 'OrderKept'],
            },
            {
                name: 'SelectSingle',
                module: 'Select',
                adapter: 'select',
                constants: { Looks: ['single'], Searches: [true, false], Alls: [false], Lists: ['abc', 'bc', 'bdac', 'd'], Terms: ['', 'ap', 'AN', 'zz'], Keys: false },
                substitutions: { DisSets: 'Three' },
                invariants: ['TypeOK'],
                properties: ['NotDisabled', 'OrderKept'],
            },
            {
                name: 'SelectKeys',
                module: 'Select',
                adapter: 'select',
                constants: { Looks: ['single', 'multi'], Searches: [true, false], Alls: [true, false], Lists: ['abc'], Terms: ['', 'AN'], Keys: true },
                substitutions: { DisSets: 'Two' },
                invariants: ['TypeOK'],
                properties: ['NotDisabled', 'OrderKept'],
            },
        ],
    },
    P14: {
        jobs: [
            {
                name: 'TabsLong',
                module: 'Tabs',
                adapter: 'tabs',
                constants: { L: 4, Comps: ['tabs'], Dirs: ['h'] },
                invariants: ['TypeOK'],
                properties: ['LandsEnabled', 'Nearest'],
                thorough: { constants: { L: 5, Comps: ['tabs', 'steps'], Dirs: ['h', 'v'] } },
            },
            {
                name: 'TabsSteps',
                module: 'Tabs',
                adapter: 'tabs',
                constants: { L: 3, Comps: ['tabs', 'steps'], Dirs: ['h', 'v'] },
                invariants: ['TypeOK'],
                properties: ['LandsEnabled', 'Nearest'],
            },
        ],
    },
    P15: {
        jobs: [
            {
                module: 'Pages',
                adapter: 'pages',
                constants: { MaxLen: 7, Windows: [1, 2, 3, 4, 5] },
                invariants: ['TypeOK'],
                properties: ['DisabledHolds', 'KeepsPage'],
                thorough: { constants: { MaxLen: 12, Windows: [1, 2, 3, 4, 5, 6, 7, 10] } },
            },
        ],
    },
    P16: {
        jobs: [
            {
                name: 'TableBound',
                module: 'Table',
                adapter: 'table',
                constants: { Lists: ['five', 'three', 'tail', 'none'], Terms: ['', 'alpha', 'BETA', 'zzz'], Sizes: [1, 2, 99], Modes: ['client'], Cols: ['k', 'g'] },
                invariants: ['TypeOK', 'NoEmptyPage', 'SortedRight'],
                thorough: { constants: { Lists: ['five', 'three', 'one', 'none', 'four'], Terms: ['', 'alpha', 'BETA', 'zzz'], Sizes: [1, 2, 3, 99], Modes: ['client'], Cols: ['k', 'g'] } },
            },
            {
                name: 'TableModes',
                module: 'Table',
                adapter: 'table',
                constants: { Lists: ['five', 'one'], Terms: ['', 'BETA'], Sizes: [2, 3], Modes: ['inner', 'server', 'off'], Cols: ['k', 'g'] },
                invariants: ['TypeOK', 'NoEmptyPage', 'SortedRight'],
            },
        ],
    },
    P17: {
        jobs: [
            {
                name: 'SelectPaged',
                module: 'TableSelect',
                adapter: 'table-select',
                constants: { Given: ['no'], Terms: ['', 'BETA'], Dirs: 1, MaxSel: 3 },
                invariants: ['TypeOK'],
                properties: ['Untouched', 'OneRow', 'Fixed'],
                thorough: { constants: { Given: ['no', 'fixed', 'mix', 'all', 'as many'], Terms: ['', 'BETA'], Dirs: 3, MaxSel: 5 } },
            },
            {
                name: 'SelectGiven',
                module: 'TableSelect',
                adapter: 'table-select',
                constants: { Given: ['fixed', 'mix', 'as many'], Terms: [''], Dirs: 0, MaxSel: 4 },
                invariants: ['TypeOK'],
                properties: ['Untouched', 'OneRow', 'Fixed'],
                thorough: { constants: { Given: ['fixed', 'mix', 'as many', 'all'], Terms: [''], Dirs: 0, MaxSel: 5 } },
            },
        ],
    },
    P18: {
        jobs: [
            {
                module: 'ScrollLock',
                adapter: 'scroll-lock',
                constants: { Styles: ['plain', 'auto', 'hidden'], Touch: [true, false] },
                substitutions: { Holders: 'Three' },
                invariants: ['TypeOK'],
                properties: ['OwnKept'],
                thorough: { constants: { Styles: ['plain', 'auto', 'hidden'], Touch: [true, false] }, substitutions: { Holders: 'Four' } },
            },
        ],
    },
    P19: {
        jobs: [
            {
                name: 'FocusStates',
                module: 'FocusTrap',
                adapter: 'focus-trap',
                constants: { States: ['ok', 'disabled', 'hidden', 'covered', 'invisible', 'fieldset', 'skip', 'gone'], Hosts: ['trap'], Autos: [''] },
                substitutions: { Elements: 'Two' },
                invariants: ['TypeOK'],
                properties: ['TabStays', 'TabUsable', 'GivesBack'],
            },
            {
                name: 'FocusOrder',
                module: 'FocusTrap',
                adapter: 'focus-trap',
                constants: { States: ['ok', 'gone', 'skip'], Hosts: ['trap'], Autos: ['', 'link', 'button'] },
                substitutions: { Elements: 'Three' },
                invariants: ['TypeOK'],
                properties: ['TabStays', 'TabUsable', 'GivesBack'],
            },
            {
                name: 'FocusDrawer',
                module: 'FocusTrap',
                adapter: 'focus-trap',
                constants: { States: ['ok', 'disabled'], Hosts: ['drawer'], Autos: [''] },
                substitutions: { Elements: 'Two' },
                invariants: ['TypeOK'],
                properties: ['TabStays', 'TabUsable', 'GivesBack'],
            },
        ],
    },
    P20: {
        jobs: [
            {
                name: 'TooltipHover',
                module: 'Tooltip',
                adapter: 'tooltip',
                constants: { Clickable: [true, false], Contents: [false], Devices: ['mouse', 'keys'], Places: ['slot', 'target'], Delays: [0, 100] },
                invariants: ['TypeOK', 'Settled', 'NoContents'],
            },
            {
                name: 'TooltipContents',
                module: 'Tooltip',
                adapter: 'tooltip',
                constants: { Clickable: [true, false], Contents: [true], Devices: ['mouse'], Places: ['target'], Delays: [0, 100] },
                invariants: ['TypeOK', 'Settled', 'NoContents'],
            },
            {
                module: 'Floating',
                adapter: 'floating',
                constants: { Delays: [0, 100], Still: [true, false] },
                invariants: ['TypeOK', 'Settled'],
            },
        ],
    },
    P21: {
        jobs: [
            {
                name: 'LayoutBars',
                module: 'Layout',
                adapter: 'layout',
                constants: {
                    Positions: ['', 'relative', 'absolute', 'sticky'], Heights: ['', '4rem'], Footers: [true, false],
                    Drawers: [], Sides: ['top'], Sizes: [''], OptOut: [true, false],
                },
                invariants: ['TypeOK', 'NothingForNothing', 'ClosedTakesNothing'],
            },
            {
                name: 'LayoutDrawer',
                module: 'Layout',
                adapter: 'layout',
                constants: {
                    Positions: ['static', 'fixed'], Heights: ['4rem'], Footers: [true, false],
                    Drawers: ['a'], Sides: ['left', 'right', 'top', 'bottom'], Sizes: ['', 'md', '90'], OptOut: [true],
                },
                invariants: ['TypeOK', 'NothingForNothing', 'ClosedTakesNothing'],
            },
            {
                name: 'LayoutDrawers',
                module: 'Layout',
                adapter: 'layout',
                constants: {
                    Positions: ['fixed'], Heights: ['4rem'], Footers: [false],
                    Drawers: ['a', 'b'], Sides: ['left', 'top'], Sizes: ['', '12em'], OptOut: [true],
                },
                invariants: ['TypeOK', 'NothingForNothing', 'ClosedTakesNothing'],
            },
        ],
    },
    P22: {
        jobs: [
            {
                module: 'Theme',
                adapter: 'theme',
                constants: {},
                invariants: ['TypeOK'],
                properties: ['Remembered', 'Flips'],
            },
        ],
    },
    P23: {
        jobs: [
            {
                module: 'Schemes',
                adapter: 'schemes',
                constants: { Colors: ['red', 'blue'] },
                substitutions: { Comps: 'ButtonInput' },
                invariants: ['TypeOK'],
                properties: ['OwnIsLocal'],
                thorough: { constants: { Colors: ['red', 'blue', 'green'] } },
            },
            {
                module: 'Styles',
                adapter: 'styles',
                constants: { Keys: ['w', 'p', 'q'] },
                invariants: ['TypeOK'],
                properties: ['OneKey'],
                thorough: { constants: { Keys: ['w', 'v', 'p', 'q'] } },
            },
            {
                name: 'StylesVariable',
                module: 'Styles',
                adapter: 'styles',
                constants: { Keys: ['v', 'p'] },
                invariants: ['TypeOK'],
                properties: ['OneKey'],
            },
        ],
    },
    P26: {
        jobs: [
            {
                module: 'Limits',
                adapter: 'limits',
                constants: {
                    Kinds: ['text', 'password', 'number', 'textarea', 'date', 'select', 'multiselect', 'radioset', 'checkboxset', 'checkbox', 'switch', 'radio', 'file'],
                    Forms: ['number'],
                },
                invariants: ['TypeOK', 'EmptyFine'],
                thorough: {
                    constants: {
                        Kinds: ['text', 'password', 'number', 'textarea', 'date', 'select', 'multiselect', 'radioset', 'checkboxset', 'checkbox', 'switch', 'radio', 'file'],
                        Forms: ['number', 'text'],
                    },
                },
            },
            {
                name: 'LimitsText',
                module: 'Limits',
                adapter: 'limits',
                constants: { Kinds: ['text', 'number', 'multiselect'], Forms: ['text'] },
                invariants: ['TypeOK', 'EmptyFine'],
            },
        ],
    },
    P27: {
        jobs: [
            {
                module: 'Registry',
                adapter: 'registry',
                constants: { Modes: ['reject', '503'], MaxDown: 1 },
                substitutions: { Setups: 'QuickSetups' },
                invariants: ['TypeOK'],
                properties: ['Healthy'],
                thorough: { constants: { Modes: ['reject', '503', '429', '403', 'cut'], MaxDown: 2 } },
            },
            {
                name: 'RegistryModes',
                module: 'Registry',
                adapter: 'registry',
                constants: { Modes: ['429', '403', 'cut'], MaxDown: 1 },
                substitutions: { Setups: 'FewSetups' },
                invariants: ['TypeOK'],
                properties: ['Healthy'],
            },
        ],
    },
    P28: {
        jobs: [
            {
                name: 'VersionSource',
                module: 'Version',
                adapter: 'version',
                constants: {
                    Parts: 'small',
                    Given: ['none', 'blank', 'exact', 'caret', 'prefix', 'local', 'latest'],
                    Declared: ['none', 'exact', 'tilde', 'min', 'span', 'alias', 'local', 'file', 'link', 'portal', 'star', 'next', 'beta', 'short', 'text'],
                    Entries: ['none', 'plus'],
                    Sections: ['absent', 'broken', 'number', 'dependencies', 'devDependencies', 'peerDependencies'],
                },
                invariants: ['TypeOK', 'Total'],
            },
            {
                name: 'VersionOrder',
                module: 'Version',
                adapter: 'version',
                constants: {
                    Parts: 'large',
                    Given: ['none', 'exact', 'caret', 'spaced'],
                    Declared: ['exact'],
                    Entries: ['none', 'plus', 'exact', 'prefix', 'latest', 'min'],
                    Sections: ['absent', 'dependencies'],
                },
                invariants: ['TypeOK', 'Total'],
            },
        ],
    },
    P29: {
        jobs: [
            {
                module: 'Unchecked',
                adapter: 'unchecked',
                constants: { Kinds: ['sfc', 'snippet', 'style-set', 'project-setup'], Modes: ['reject', '503', '429'] },
                invariants: ['TypeOK'],
                properties: ['NeverUnchecked'],
            },
            {
                name: 'UsageAttrs',
                module: 'Usage',
                adapter: 'usage',
                constants: { MaxTags: 1, MaxAttrs: 2, Comps: ['VsField', 'VsPlain'], Writings: ['kebab'], Attrs2: [], Slots: ['none'], Places: ['beside'], Imports: ['none'], Versions: ['2.1.0'], Closings: ['self', 'tight', 'open'] },
                substitutions: { Attrs1: 'AllAttrs' },
                invariants: ['TypeOK'],
            },
            {
                name: 'UsageNest',
                module: 'Usage',
                adapter: 'usage',
                constants: { MaxTags: 2, MaxAttrs: 1, Comps: ['VsField', 'VsPlain'], Writings: ['kebab'], Attrs1: ['label'], Attrs2: ['label'], Slots: ['none', 'head', 'headLong', 'bogus', 'bogusProps', 'bogusLong', 'default', 'cell', 'cellLong', 'cellBogus'], Places: ['beside', 'inside', 'slotted', 'remark'], Imports: ['none'], Versions: ['2.1.0'], Closings: ['self', 'open'] },
                invariants: ['TypeOK'],
            },
            {
                name: 'UsageVersions',
                module: 'Usage',
                adapter: 'usage',
                constants: { MaxTags: 2, MaxAttrs: 1, Comps: ['VsPlain', 'VsNewer', 'VsNowhere'], Writings: ['kebab', 'pascal'], Attrs1: ['wrong'], Attrs2: ['other'], Slots: ['none', 'bogus'], Places: ['beside', 'inside', 'remark'], Imports: ['none', 'VsNewer', 'VsNowhere', 'VsPlain', 'VsComponent', 'VsTableSortType', 'VsNewerStyleSet'], Versions: ['2.1.0', '2.2.0', '-'], Closings: ['open'] },
                invariants: ['TypeOK'],
            },
        ],
    },
    P30: {
        jobs: [
            {
                module: 'Trace',
                adapter: 'trace',
                constants: { MaxSteps: 4, Limits: [1, 2, 99], Durs: [7] },
                invariants: ['TypeOK', 'Attached', 'OneSearch'],
                thorough: { constants: { MaxSteps: 5, Limits: [1, 2, 99], Durs: [0, 7] } },
            },
        ],
    },
    P31: {
        jobs: [
            {
                module: 'Placement',
                adapter: 'placement',
                constants: { Sides: ['top', 'bottom', 'left', 'right', 'middle'], Aligns: ['start', 'center', 'end'], Margins: [10], Follow: [false], Scrolls: [0] },
                invariants: ['TypeOK', 'Asked', 'Beside'],
                thorough: {
                    constants: { Sides: ['top', 'bottom', 'left', 'right', 'middle'], Aligns: ['start', 'center', 'end'], Margins: [0, 10], Follow: [true, false], Scrolls: [0, 30] },
                },
            },
            {
                name: 'PlacementPage',
                module: 'Placement',
                adapter: 'placement',
                constants: { Sides: ['top', 'right'], Aligns: ['center'], Margins: [0], Follow: [true], Scrolls: [0, 30] },
                invariants: ['TypeOK', 'Asked', 'Beside'],
            },
        ],
    },
    P32: {
        jobs: [
            {
                module: 'Files',
                adapter: 'files',
                constants: { Accepts: ['', '.txt', 'image/*', 'text/plain, .png', '.TXT,image/png'] },
                substitutions: { Limits: 'AllLimits' },
                invariants: ['TypeOK'],
                properties: ['OnlyFitting', 'OthersStay'],
            },
        ],
    },
    P33: {
        jobs: [
            {
                module: 'Search',
                adapter: 'search',
                constants: { Texts: ['', 'A', 'a.b', '[x', '^a'], Delay: 2 },
                invariants: ['TypeOK', 'Told'],
                properties: ['Truth'],
            },
        ],
    },
    P34: {
        jobs: [
            {
                module: 'Visible',
                adapter: 'visible',
                constants: { N: 2 },
                invariants: ['TypeOK', 'OffIsAll'],
            },
        ],
    },
    P35: {
        jobs: [
            {
                module: 'Image',
                adapter: 'image',
                constants: {},
                invariants: ['TypeOK', 'NoEmptyFallback', 'AllTried'],
            },
        ],
    },
    P36: {
        jobs: [
            {
                name: 'ProjectPackage',
                module: 'Project',
                adapter: 'project',
                constants: {
                    Pkgs: ['none', 'broken', 'json'], Deps: ['vlossom', 'vue', 'tailwindcss', 'vuetify', 'primevue'], Fixed: [],
                    Entries: ['none', 'main'], Parts: [], Uses: [], Modes: ['strict', 'prefer', 'off', 'unset'],
                },
                invariants: ['TypeOK', 'OffIsQuiet'],
            },
            {
                name: 'ProjectSetup',
                module: 'Project',
                adapter: 'project',
                constants: {
                    Pkgs: ['none', 'json'], Deps: ['vue'], Fixed: ['vlossom', 'tailwindcss'],
                    Entries: ['none', 'main', 'plugin', 'windows', 'other'], Parts: ['create', 'components', 'option', 'styles'], Uses: [], Modes: ['off'],
                },
                invariants: ['TypeOK', 'OffIsQuiet'],
            },
            {
                name: 'ProjectPages',
                module: 'Project',
                adapter: 'project',
                constants: {
                    Pkgs: ['json'], Deps: [], Fixed: ['vlossom', 'tailwindcss', 'vue', 'primevue'], Entries: ['main', 'other'], Parts: [],
                    Uses: ['native', 'uncovered', 'tag', 'unknown', 'inline', 'bound', 'again', 'import', 'near'], Modes: ['strict', 'prefer', 'off', 'unset'],
                },
                invariants: ['TypeOK', 'OffIsQuiet'],
            },
            {
                name: 'ProjectMarkup',
                module: 'Project',
                adapter: 'project',
                constants: {
                    Pkgs: ['json'], Deps: [], Fixed: ['vlossom', 'tailwindcss', 'vue'], Entries: ['main'], Parts: [],
                    Uses: ['native', 'inline', 'bound', 'remark', 'beyond', 'import'], Modes: ['strict', 'prefer', 'off'],
                },
                invariants: ['TypeOK', 'OffIsQuiet'],
            },
        ],
    },
    P37: {
        jobs: [
            {
                name: 'StyleSetKeys',
                module: 'StyleSet',
                adapter: 'styleset',
                constants: {
                    Comps: ['VsOld', 'VsNew'], Wraps: ['typed'], Layouts: ['spread', 'compact'], Versions: ['2.2.0'],
                    Elems: ['css', 'part', 'child', 'own', 'wrongPart', 'wrongObject', 'typed', 'quoted', 'comment', 'colour', 'foreign'],
                },
                invariants: ['TypeOK', 'NeverUnchecked'],
            },
            {
                name: 'StyleSetVariables',
                module: 'StyleSet',
                adapter: 'styleset',
                constants: {
                    Comps: ['VsOld', 'VsNew'], Wraps: ['typed', 'imported', 'returned'], Layouts: ['spread', 'compact'], Versions: ['-'],
                    Elems: ['varOk', 'varCss', 'varBad', 'varSame', 'child', 'part', 'wrongPart'],
                },
                invariants: ['TypeOK', 'NeverUnchecked'],
            },
            {
                name: 'StyleSetValues',
                module: 'StyleSet',
                adapter: 'styleset',
                constants: {
                    Comps: ['VsOld', 'VsNew'], Wraps: ['typed', 'none'], Layouts: ['spread', 'compact'], Versions: ['-'],
                    Elems: ['css', 'varOk', 'comment', 'colour', 'foreign', 'clear', 'remark'],
                },
                invariants: ['TypeOK', 'NeverUnchecked'],
            },
            {
                name: 'StyleSetContext',
                module: 'StyleSet',
                adapter: 'styleset',
                constants: {
                    Comps: ['VsOld', 'VsNew'], Wraps: ['typed', 'imported', 'ref', 'computed', 'returned', 'bare', 'nowhere', 'other', 'none'],
                    Layouts: ['spread', 'compact'], Versions: ['-', '2.1.0', '2.2.0'], Elems: ['css', 'part', 'colour', 'varBad'],
                },
                invariants: ['TypeOK', 'NeverUnchecked'],
            },
        ],
    },
    P38: {
        jobs: [
            {
                module: 'Shadow',
                adapter: 'shadow',
                constants: { Owns: ['', 'inline-size', 'scroll-state'] },
                invariants: ['TypeOK', 'OffIsOff'],
                properties: ['Steady'],
            },
        ],
    },
    P39: {
        jobs: [
            {
                module: 'TableRows',
                adapter: 'table-rows',
                constants: { Kinds: ['place', 'item'], Terms: ['', 'BETA'], Dirs: 2, MaxOpen: 1 },
                invariants: ['TypeOK'],
                properties: ['Steady', 'OneRow'],
                thorough: { constants: { Kinds: ['place', 'item'], Terms: ['', 'BETA'], Dirs: 3, MaxOpen: 2 } },
            },
        ],
    },
    P40: {
        jobs: [
            {
                module: 'Options',
                adapter: 'options',
                constants: { Ratios: [0, 5, 20, 100, 101] },
                invariants: ['TypeOK'],
                properties: ['Apart'],
                thorough: { constants: { Ratios: [0, 3, 5, 10, 20, 100, 101] } },
            },
        ],
    },
    P41: {
        jobs: [
            { module: 'Accordion', adapter: 'accordion', constants: {}, invariants: ['TypeOK'], properties: ['Disabled'] },
        ],
    },
    P42: {
        jobs: [
            {
                module: 'IndexView',
                adapter: 'index-view',
                constants: { MaxCount: 1 },
                invariants: ['TypeOK', 'Forgets'],
                thorough: { constants: { MaxCount: 2 } },
            },
        ],
    },
    P43: {
        jobs: [
            {
                module: 'TextWrap',
                adapter: 'text-wrap',
                constants: { Texts: ['', 'one', 'two'], Links: ['', 'https://a.test/x', 'http://a.test/', 'javascript:alert(1)', '/relative', 'data:text/html,x'] },
                invariants: ['TypeOK'],
                properties: ['Marked'],
            },
        ],
    },
    P44: {
        jobs: [
            {
                module: 'DatePicker',
                adapter: 'date-picker',
                constants: {
                    Values: ['', '2026-05-18', '15:30', '2026-05', '2026-05-18T15:30', '18.05.2026', '2026-05-18 '],
                    Typed: ['2025-01-31', '00:00', '2026-05', '2026-05-18T15:30', '15:30:07', '12026-05-18'],
                },
                invariants: ['TypeOK'],
                properties: ['Entered', 'Kept'],
            },
        ],
    },
    P45: {
        jobs: [
            {
                module: 'Responsive',
                adapter: 'responsive',
                constants: { Comps: ['VsResponsive'], Values: ['', '0px', '240px', '50%'], MaxSet: 2 },
                invariants: ['TypeOK', 'Own'],
                thorough: { constants: { Comps: ['VsResponsive'], Values: ['', '0px', '240px', '50%'], MaxSet: 3 } },
            },
            {
                name: 'ResponsiveAll',
                module: 'Responsive',
                adapter: 'responsive',
                constants: {
                    Comps: [
                        'VsAccordion', 'VsBlock', 'VsCheckbox', 'VsCheckboxSet', 'VsDatePicker', 'VsFileDrop', 'VsIndexView', 'VsInput', 'VsLabelValue',
                        'VsRadio', 'VsRadioSet', 'VsSearchInput', 'VsSelect', 'VsSteps', 'VsSwitch', 'VsTabs', 'VsTextarea',
                    ],
                    Values: ['', '240px'],
                    MaxSet: 1,
                },
                invariants: ['TypeOK', 'Own'],
            },
        ],
    },
    P46: {
        jobs: [
            {
                module: 'Lookup',
                adapter: 'lookup',
                constants: {
                    Queries: ['', 'alpha', 'VsGamma', 'vs-beta', 'vs-gamma and vs-alpha', 'vs', 'radius', 'Thing', '500', 'two', 'r03', '2.10', 'zz'],
                    Limits: [0, 1, 50],
                },
                invariants: ['TypeOK'],
                properties: ['Reachable'],
            },
        ],
    },
    P47: {
        jobs: [
            {
                module: 'Content',
                adapter: 'content',
                constants: {
                    MaxPieces: 3,
                    Pieces: ['word', 'spaced', 'less', 'bold', 'named', 'nested', 'break', 'picture', 'remark', 'stray', 'entity'],
                    Msgs: ['-', 'hi'],
                },
                invariants: ['TypeOK'],
                properties: ['Grows'],
            },
        ],
    },
    P48: {
        jobs: [
            {
                module: 'OverlayApp',
                adapter: 'overlay-app',
                constants: { Values: ['1', '2'] },
                invariants: ['TypeOK'],
                properties: ['Apart'],
            },
        ],
    },
    P49: {
        jobs: [
            {
                module: 'Frame',
                adapter: 'frame',
                constants: {
                    Kinds: ['VsInput', 'VsTextarea', 'VsDatePicker', 'VsCheckbox', 'VsCheckboxSet', 'VsRadio', 'VsRadioSet', 'VsSwitch', 'VsSelect', 'VsFileDrop'],
                    Slots: [false, true],
                    Names: ['called'],
                },
                invariants: ['TypeOK'],
                properties: ['Apart'],
            },
        ],
    },
    P50: {
        jobs: [
            {
                module: 'Choices',
                adapter: 'choices',
                constants: {
                    Kinds: ['radioset', 'checkset', 'select', 'multiselect'],
                    Shapes: ['object', 'id', 'inner', 'number', 'word'],
                    Labels: ['none', 'name', 'deep', 'n', 'lost'],
                    Lists: ['abc', 'dca', 'b'],
                    MaxLen: 2,
                },
                invariants: ['TypeOK', 'Offers'],
                properties: ['Kept'],
                thorough: {
                    constants: {
                        Kinds: ['radioset', 'checkset', 'select', 'multiselect'],
                        Shapes: ['object', 'id', 'inner', 'number', 'word'],
                        Labels: ['none', 'name', 'deep', 'n', 'text', 'lost'],
                        Lists: ['abc', 'dca', 'bca', 'b', 'empty'],
                        MaxLen: 3,
                    },
                },
            },
        ],
    },
    P51: {
        jobs: [
            {
                module: 'Cells',
                adapter: 'cells',
                constants: {
                    Columns: ['no', 'names', 'path', 'defs', 'renamed', 'joined', 'marked'],
                    Lists: ['turned', 'gap', 'more', 'deep', 'none'],
                    Slots: ['no'],
                    Grown: 2,
                },
                invariants: ['TypeOK', 'Even', 'Complete'],
                properties: ['OneRow'],
                thorough: {
                    constants: {
                        Columns: ['no', 'names', 'path', 'defs', 'renamed', 'joined', 'marked'],
                        Lists: ['even', 'turned', 'gap', 'more', 'deep', 'one', 'none'],
                        Slots: ['no'],
                        Grown: 3,
                    },
                },
            },
            {
                name: 'CellsSlots',
                module: 'Cells',
                adapter: 'cells',
                constants: { Columns: ['no', 'names', 'renamed', 'marked'], Lists: ['turned', 'deep'], Slots: ['key'], Grown: 2 },
                invariants: ['TypeOK', 'Even', 'Complete'],
                properties: ['OneRow'],
            },
        ],
    },
    P52: {
        jobs: [
            {
                module: 'Scaffold',
                adapter: 'scaffold',
                constants: {
                    Projects: ['none', 'old', 'new', 'package', 'dev', 'both', 'foreign', 'broken'],
                    Wishes: ['none', 'alpha', 'gamma', 'beta', 'twice', 'pair', 'mixed'],
                    Texts: ['plain', 'empty', 'arrow', 'long'],
                    Formats: ['sfc', 'markdown'],
                    Frames: ['-', 'vite', 'nuxt'],
                },
                invariants: ['TypeOK'],
                properties: ['Installed'],
            },
        ],
    },
};
