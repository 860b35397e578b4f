------------------------------ MODULE Restrict ------------------------------
(* A control that its own setting or its form disables or makes read-only.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds

VARIABLES own, form,    \* restrictions: "", "disabled", "readonly"
          val,          \* "" is the empty value; lists grow from "x" to "y"
          open,         \* the options of a select have been opened and left open
          cfg, act
vars == <<own, form, val, open, cfg>>
View == vars

Levels == {"", "disabled", "readonly"}
Lists == {"checkboxset", "multiselect", "filedrop"}
Toggles == {"checkbox", "switch", "toggle"}
Once == {"radio"}
Texts == {"input", "number", "textarea", "date", "search"}
Picks == {"select", "radioset"}
Formless == {"toggle", "search"}        \* not a field of a form
Writable == {"toggle"}                  \* has no read-only setting
Values(k) == IF k \in Toggles \cup Once THEN {"", "x"} ELSE {"", "x", "y"}

Init == /\ cfg \in [kind : Kinds] /\ val \in Values(cfg.kind) /\ open = FALSE
        /\ own \in (IF cfg.kind \in Writable THEN {"", "disabled"} ELSE Levels)
        /\ form \in (IF cfg.kind \in Formless THEN {""} ELSE Levels) /\ act = [op |-> "init"]

Free == own = "" /\ form = ""

\* what the user tries, and what comes of it while nothing forbids it
Try(a, to) == /\ val' = (IF Free THEN to ELSE val) /\ act' = a /\ open' = FALSE /\ UNCHANGED <<own, form, cfg>>
Enter(v) == /\ cfg.kind \in Texts /\ v \in Values(cfg.kind) /\ Try([op |-> "enter", v |-> v], v)
Toggle == /\ cfg.kind \in Toggles /\ Try([op |-> "enter", v |-> "x"], IF val = "" THEN "x" ELSE "")
Label == /\ cfg.kind \in {"checkbox", "switch", "radio"}
         /\ Try([op |-> "label"], IF val = "" THEN "x" ELSE IF cfg.kind = "radio" THEN "x" ELSE "")
Pick(v) == /\ cfg.kind \in Picks \cup Once /\ v \in Values(cfg.kind) \ {""} /\ Try([op |-> "enter", v |-> v], v)
\* lists are filled and emptied step by step
Add(v) == /\ cfg.kind \in {"checkboxset", "multiselect"} /\ <<val, v>> \in {<<"", "x">>, <<"x", "y">>, <<"y", "x">>, <<"x", "">>}
          /\ Try([op |-> "enter", v |-> v], v)
Files(v, how) == /\ cfg.kind = "filedrop" /\ v # "" /\ Try([op |-> how, v |-> v], v)
Wipe == /\ cfg.kind \in {"input", "number", "select", "multiselect", "filedrop"} /\ val # "" /\ Try([op |-> "wipe"], "")
Chip == /\ cfg.kind \in {"multiselect", "filedrop"} /\ val # "" /\ Try([op |-> "chip"], IF val = "y" THEN "x" ELSE "")
\* keys are only looked at where they must do nothing
Keys == /\ cfg.kind \in {"select", "multiselect", "filedrop"} /\ ~Free /\ Try([op |-> "keys"], val)
\* so is selecting all where the options have not vanished yet
All == /\ cfg.kind = "multiselect" /\ ~Free /\ open /\ Try([op |-> "all"], val)
Open == /\ cfg.kind \in {"select", "multiselect"} /\ Free /\ ~open /\ open' = TRUE /\ act' = [op |-> "open"]
        /\ UNCHANGED <<own, form, val, cfg>>

SetOwn(r) == /\ r # own /\ (cfg.kind \in Writable => r # "readonly") /\ own' = r /\ act' = [op |-> "own", to |-> r]
             /\ UNCHANGED <<form, val, open, cfg>>
SetForm(r) == /\ cfg.kind \notin Formless /\ r # form /\ form' = r /\ act' = [op |-> "form", to |-> r] /\ UNCHANGED <<own, val, open, cfg>>
Assign(v) == /\ v \in Values(cfg.kind) /\ v # val /\ val' = v /\ act' = [op |-> "assign", v |-> v] /\ UNCHANGED <<own, form, open, cfg>>
Clear == /\ cfg.kind # "toggle" /\ val' = "" /\ act' = [op |-> "clear"] /\ UNCHANGED <<own, form, open, cfg>>

Next == \/ \E v \in {"", "x", "y"} : Enter(v) \/ Pick(v) \/ Add(v) \/ Files(v, "enter") \/ Files(v, "drop") \/ Assign(v)
        \/ Toggle \/ Label \/ Wipe \/ Chip \/ Keys \/ All \/ Open \/ Clear
        \/ \E r \in Levels : SetOwn(r) \/ SetForm(r)

----------------------------------------------------------------------------
TypeOK == val \in Values(cfg.kind)
Held == [][~Free /\ val' # val => act'.op \in {"assign", "clear"}]_<<vars, act>>

\* what a toggle shows is up to its contents
Obs == [value |-> val, shows |-> IF cfg.kind = "toggle" THEN "*" ELSE val]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, own |-> own, form |-> form], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
