------------------------------ MODULE Unchecked ------------------------------
(* Code is called valid only after it has been checked.                       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, Modes

VARIABLES down,         \* resource kinds failing right now
          seen,         \* resource kinds that may have been fetched already
          cfg, act
vars == <<down, seen, cfg>>
View == vars

Codes == {"empty", "blank", "good", "bad"}
Needs(k) == IF k = "project-setup" THEN {"ref"} ELSE {"ref", "readme", "aux"}

Init == /\ cfg \in [mode : Modes] /\ down = {} /\ seen = {} /\ act = [op |-> "init"]

Valid(k, c) == IF c # "good" THEN FALSE
               ELSE IF down \cap Needs(k) = {} THEN TRUE
               ELSE IF (down \cap Needs(k)) \ seen # {} THEN FALSE
               ELSE "*"       \* what was fetched earlier may be used
Skipped(c) == c \in {"empty", "blank"}
Check(k, c) == /\ act' = [op |-> "check", kind |-> k, code |-> c,
                          out |-> [valid |-> Valid(k, c), checked |-> IF down # {} THEN "*" ELSE ~Skipped(c)]]
               /\ seen' = (IF Skipped(c) THEN seen ELSE seen \cup (Needs(k) \ down))
               /\ UNCHANGED <<down, cfg>>
Fail(r) == /\ down = {} /\ down' = {r} /\ act' = [op |-> "net", down |-> down', mode |-> cfg.mode] /\ UNCHANGED <<seen, cfg>>
Heal == /\ down # {} /\ down' = {} /\ act' = [op |-> "net", down |-> {}, mode |-> cfg.mode] /\ UNCHANGED <<seen, cfg>>

Next == \/ \E k \in Kinds, c \in Codes : Check(k, c)
        \/ \E r \in {"ref", "readme", "aux"} : Fail(r)
        \/ Heal

----------------------------------------------------------------------------
TypeOK == seen \subseteq {"ref", "readme", "aux"}
NeverUnchecked == [][(act'.op = "check" /\ act'.code # "good") => act'.out.valid = FALSE]_<<vars, act>>

Obs == [quiet |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
