------------------------------- MODULE Project ------------------------------
(* Validation of a project that is being edited: after each edit the report   *)
(* says exactly what is missing and which uses the policy does not allow.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pkgs,         \* states of package.json: "none", "broken", "json"
          Deps,         \* dependencies that come and go
          Fixed,        \* dependencies that are there all the time
          Entries,      \* where the setup stands: "none", "main", "plugin", "windows", "other"
          Parts,        \* parts of the setup that come and go (the others are there)
          Uses,         \* uses in a page that come and go
          Modes         \* "strict", "prefer", "off", "unset"

VARIABLES pkg, deps, entry, parts, uses, page, mode, cfg, act
vars == <<pkg, deps, entry, parts, uses, page, mode, cfg>>
View == vars

AllParts == {"create", "components", "option", "styles"}
Init == /\ pkg \in Pkgs /\ deps = {} /\ entry \in Entries /\ parts = {} /\ uses = {} /\ page = (Uses # {})
        /\ mode \in Modes /\ cfg = "project" /\ act = [op |-> "init"]

Say(o, x) == act' = [op |-> o, x |-> x] /\ UNCHANGED cfg
Flip(S, x) == IF x \in S THEN S \ {x} ELSE S \cup {x}
SetPkg(x) == x # pkg /\ pkg' = x /\ Say("pkg", x) /\ UNCHANGED <<deps, entry, parts, uses, page, mode>>
SetEntry(x) == x # entry /\ entry' = x /\ Say("entry", x) /\ UNCHANGED <<pkg, deps, parts, uses, page, mode>>
SetMode(x) == x # mode /\ mode' = x /\ Say("mode", x) /\ UNCHANGED <<pkg, deps, entry, parts, uses, page>>
Dep(x) == deps' = Flip(deps, x) /\ Say("dep", x) /\ UNCHANGED <<pkg, entry, parts, uses, page, mode>>
Part(x) == parts' = Flip(parts, x) /\ Say("part", x) /\ UNCHANGED <<pkg, deps, entry, uses, page, mode>>
Use(x) == page /\ uses' = Flip(uses, x) /\ Say("use", x) /\ UNCHANGED <<pkg, deps, entry, parts, page, mode>>
Next == \/ \E x \in Pkgs : SetPkg(x)
        \/ \E x \in Entries : SetEntry(x)
        \/ \E x \in Modes : SetMode(x)
        \/ \E x \in Deps : Dep(x)
        \/ \E x \in Parts : Part(x)
        \/ \E x \in Uses : Use(x)
Spec == Init /\ [][Next]_<<vars, act>>

--------------------------------------------------------------------------
Has == deps \cup Fixed
Files == page \/ entry # "none"
Skipped == pkg = "none" /\ ~Files
Strictness == IF mode = "unset" THEN "strict" ELSE mode
Severity == IF Strictness = "strict" THEN "error" ELSE "warning"
Foreign == {"vuetify", "primevue"} \cap Has

Missing == IF pkg # "json" THEN 0 ELSE Cardinality({"vlossom", "vue", "tailwindcss"} \ Has)
Broken == IF pkg = "broken" THEN 1 ELSE 0
Given == (AllParts \ Parts) \cup parts
Setup == IF ~Files THEN 0 ELSE IF entry \notin {"main", "plugin", "windows"} THEN 1 ELSE Cardinality(AllParts \ Given)
Policy == IF pkg = "json" /\ Foreign # {} /\ Strictness = "strict" THEN 1 ELSE 0
\* line of the page on which each use stands; the others are allowed
LineOf(u) == CASE u = "native" -> 2 [] u = "tag" -> 4 [] u = "unknown" -> 5 [] u = "inline" -> 6 [] u = "again" -> 8 [] u = "import" -> 11 [] u = "beyond" -> 15 [] OTHER -> 0
Refused == IF ~page \/ Strictness = "off" THEN {} ELSE {u \in uses : LineOf(u) > 0}
Rule(u) == IF u \in {"inline", "beyond"} THEN "PREFER_STYLE_SET" ELSE "PREFER_VLOSSOM_COMPONENT"

Count == Missing + Broken + Setup + Policy + Cardinality(Refused)
Errors == Missing + Broken + Setup + Policy + (IF Severity = "error" THEN Cardinality(Refused) ELSE 0)
TypeOK == pkg \in Pkgs /\ deps \subseteq Deps /\ mode \in Modes
\* without the policy only the setup counts
OffIsQuiet == Strictness = "off" => Refused = {} /\ Policy = 0

Obs == IF Skipped THEN [status |-> "skipped", valid |-> FALSE, setup |-> 0, policy |-> 0, uses |-> {}, advice |-> FALSE, leads |-> TRUE]
       ELSE [status |-> IF Errors = 0 THEN "ok" ELSE "error", valid |-> Errors = 0,
             setup |-> Missing + Broken + Setup, policy |-> Policy,
             uses |-> {<<LineOf(u), Rule(u), Severity>> : u \in Refused},
             advice |-> pkg = "json" /\ Foreign # {} /\ Strictness = "prefer",
             leads |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs,
    c |-> [pkg |-> pkg, entry |-> entry, mode |-> mode, page |-> page, fixed |-> Fixed, parts |-> AllParts \ Parts], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
