-------------------------------- MODULE Limits -------------------------------
(* Validity of a field under its built-in constraints.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Forms   \* field kinds; limits given as "number" or "text"

VARIABLES v, req, min, max, acc, cfg, act
vars == <<v, req, min, max, acc, cfg>>
View == vars

No == -9      \* no value
Low == -8     \* no lower limit
High == 8     \* no upper limit
\* counted: the value is a length or a number of entries.  measured: an optional value with a size.
Counted == {"text", "password", "textarea", "multiselect", "checkboxset"}
Measured == {"number", "date"}
Single == {"select", "radioset", "checkbox", "switch", "radio"}
Vals(k) == CASE k \in Counted -> 0..3
             [] k = "number" -> {No, -1, 0, 1, 2}
             [] k = "date" -> {No, 0, 1, 2}
             [] k \in {"select", "radioset"} -> {No, 0, 1, 2}
             [] k \in {"checkbox", "switch", "radio"} -> {No, 1}
             [] k = "file" -> 0..3
Mins(k) == CASE k \in Counted -> {Low, 0, 1, 2} [] k = "number" -> {Low, -1, 0, 1} [] k = "date" -> {Low, 0, 1} [] OTHER -> {Low}
Maxs(k) == CASE k \in Counted -> {0, 1, 2, High} [] k = "number" -> {-1, 0, 1, High} [] k = "date" -> {1, 2, High} [] OTHER -> {High}
\* files: 0 none, 1 a text file, 2 an image, 3 both
Accs(k) == IF k = "file" THEN {"-", ".txt", "text/*", "image/png, .TXT", "video/mp4"} ELSE {"-"}
Takes(a, f) == CASE a = "-" -> TRUE [] a \in {".txt", "text/*"} -> f \in {0, 1} [] a = "image/png, .TXT" -> TRUE [] a = "video/mp4" -> f = 0

Init == /\ cfg \in [kind : Kinds, form : Forms]
        /\ v \in Vals(cfg.kind) /\ req \in BOOLEAN /\ min = Low /\ max = High /\ acc = "-"
        /\ act = [op |-> "init"]

Set(x) == /\ x # v /\ v' = x /\ act' = [op |-> "value", to |-> x] /\ UNCHANGED <<req, min, max, acc, cfg>>
Req == /\ req' = ~req /\ act' = [op |-> "required", to |-> req'] /\ UNCHANGED <<v, min, max, acc, cfg>>
Min(x) == /\ x # min /\ min' = x /\ act' = [op |-> "min", to |-> x] /\ UNCHANGED <<v, req, max, acc, cfg>>
Max(x) == /\ x # max /\ max' = x /\ act' = [op |-> "max", to |-> x] /\ UNCHANGED <<v, req, min, acc, cfg>>
Acc(a) == /\ a # acc /\ acc' = a /\ act' = [op |-> "accept", to |-> a] /\ UNCHANGED <<v, req, min, max, cfg>>

Next == \/ \E x \in Vals(cfg.kind) : Set(x)
        \/ Req
        \/ \E x \in Mins(cfg.kind) : Min(x)
        \/ \E x \in Maxs(cfg.kind) : Max(x)
        \/ \E a \in Accs(cfg.kind) : Acc(a)

----------------------------------------------------------------------------
Within(x) == (min = Low \/ x >= min) /\ (max = High \/ x <= max)
Missing == IF cfg.kind \in Counted \cup {"file"} THEN v = 0 ELSE v = No
Valid == /\ req => ~Missing
         /\ cfg.kind \in Counted => Within(v)
         /\ cfg.kind \in Measured => Missing \/ Within(v)
         /\ cfg.kind = "file" => Takes(acc, v)
TypeOK == v \in Vals(cfg.kind)
\* an optional number, date or choice may stay empty whatever the limits
EmptyFine == cfg.kind \notin Counted /\ Missing /\ ~req => Valid

Obs == [valid |-> Valid, answer |-> Valid]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [kind |-> cfg.kind, form |-> cfg.form, v |-> v, req |-> req], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
