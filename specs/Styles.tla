-------------------------------- MODULE Styles -------------------------------
(* The styles of a component: base, then preset or given set, then what the   *)
(* component imposes; every key is decided on its own, at every depth.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys          \* subset of "w" width, "v" $size, "p" $part.color, "q" $part.inner.gap

VARIABLES base, mid, kind, add, presets, cfg, act
vars == <<base, mid, kind, add, presets, cfg>>
View == vars
\* mid: the keys of the preset and of the given style set;
\* kind: none, "given", "named", "unknown" (a preset that does not exist), "other" (a preset without this component)
\* presets: whether the presets are registered yet

Kinds == {"none", "given", "named", "unknown", "other"}
Init == /\ cfg = [n |-> 1]
        /\ base = {} /\ mid = {} /\ add = {} /\ kind = "none" /\ presets = TRUE /\ act = [op |-> "init"]

Flip(S, k) == IF k \in S THEN S \ {k} ELSE S \cup {k}
Base(k) == base' = Flip(base, k) /\ act' = [op |-> "base", keys |-> base'] /\ UNCHANGED <<mid, kind, add, presets, cfg>>
Mid(k) == mid' = Flip(mid, k) /\ act' = [op |-> "mid", keys |-> mid'] /\ UNCHANGED <<base, kind, add, presets, cfg>>
Add(k) == add' = Flip(add, k) /\ act' = [op |-> "add", keys |-> add'] /\ UNCHANGED <<base, mid, kind, presets, cfg>>
Kind(x) == x # kind /\ kind' = x /\ act' = [op |-> "kind", to |-> x] /\ UNCHANGED <<base, mid, add, presets, cfg>>
Presets == presets' = ~presets /\ act' = [op |-> "presets", on |-> presets'] /\ UNCHANGED <<base, mid, kind, add, cfg>>

Next == \/ \E k \in Keys : Base(k) \/ Mid(k) \/ Add(k)
        \/ \E x \in Kinds : Kind(x)
        \/ Presets

----------------------------------------------------------------------------
InForce == IF kind = "given" \/ (kind = "named" /\ presets) THEN mid ELSE {}
From(k) == IF k \in add THEN "add" ELSE IF k \in InForce THEN (IF kind = "given" THEN "given" ELSE "named")
           ELSE IF k \in base THEN "base" ELSE "-"
TypeOK == base \subseteq Keys /\ mid \subseteq Keys /\ add \subseteq Keys
\* one source decides one key
OneKey == [][act'.op \in {"base", "mid", "add"} => Cardinality({k \in Keys : From(k)' # From(k)}) <= 1]_<<vars, act>>

Obs == [k \in Keys |-> From(k)]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [keys |-> Keys], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
