------------------------------ MODULE IndexView ------------------------------
(* Children shown one at a time.  Each counts clicks: the count of a child    *)
(* that is not shown is kept or lost as asked.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCount

VARIABLES idx, drop, count, cfg, act
vars == <<idx, drop, count, cfg>>
View == vars
\* drop: the second child is left out;  cfg.keep: keep the state of hidden children;  cfg.bound: the index is bound

Children(d) == IF d THEN <<1, 3>> ELSE <<1, 2, 3>>
Shown(i, d) == IF i + 1 \in DOMAIN Children(d) THEN Children(d)[i + 1] ELSE 0
Zero == [c \in 1..3 |-> 0]

Init == /\ cfg \in [keep : BOOLEAN, bound : BOOLEAN, first : {0, 1}]
        /\ idx = (IF cfg.bound THEN cfg.first ELSE 0) /\ drop = FALSE /\ count = Zero /\ act = [op |-> "init"]

\* how: by the bound value or by a call
Go(i, how) == /\ how = "assign" => cfg.bound
              /\ i # idx /\ idx' = i
              /\ count' = IF cfg.keep THEN count ELSE Zero
              /\ act' = [op |-> "go", to |-> i, how |-> how] /\ UNCHANGED <<drop, cfg>>
Bump == /\ Shown(idx, drop) # 0 /\ count[Shown(idx, drop)] < MaxCount
        /\ count' = [count EXCEPT ![Shown(idx, drop)] = @ + 1]
        /\ act' = [op |-> "bump"] /\ UNCHANGED <<idx, drop, cfg>>
\* children come and go beside the one shown; kept states follow the index, so only before any is kept
Drop == /\ Shown(idx, drop) = Shown(idx, ~drop) /\ Shown(idx, drop) # 0
        /\ cfg.keep => \A c \in 2..3 : count[c] = 0
        /\ drop' = ~drop /\ act' = [op |-> "drop", to |-> drop'] /\ UNCHANGED <<idx, count, cfg>>

Next == \/ \E i \in {0, 1, 2, 7} : \E how \in {"assign", "call"} : Go(i, how)
        \/ Bump
        \/ Drop

----------------------------------------------------------------------------
TypeOK == \A c \in 1..3 : count[c] \in 0..MaxCount
\* without keeping, only the child shown has a state
Forgets == cfg.keep \/ \A c \in 1..3 : count[c] > 0 => c = Shown(idx, drop)

Obs == [child |-> Shown(idx, drop), count |-> IF Shown(idx, drop) = 0 THEN 0 ELSE count[Shown(idx, drop)],
        bound |-> IF cfg.bound THEN idx ELSE "*"]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
