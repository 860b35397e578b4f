------------------------------ MODULE Floating -------------------------------
(* A floating panel bound to a flag of the page.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Delays, Still   \* still panels are not animated

VARIABLES there, flag, disabled,
          vis,          \* "yes", "no", or on its way "up" or "down"; "left" right after removal
          cfg, act
vars == <<there, flag, disabled, vis, cfg>>
View == vars

\* a panel that is taken down takes its flag down when it is bound both ways; whether it had come up before it was
\* disabled then matters to the flag, so only panels bound one way are disabled here
Init == /\ there = TRUE /\ flag \in BOOLEAN /\ disabled \in BOOLEAN
        /\ vis = (IF flag /\ ~disabled THEN "up" ELSE "no")
        /\ cfg \in [delay : Delays, still : Still, bound : BOOLEAN] /\ act = [op |-> "init"] /\ (cfg.bound => ~disabled)

Want(f, d) == f /\ ~d
Course(f, d) == vis' = (IF vis = "yes" /\ ~Want(f, d) THEN "down" ELSE IF vis = "no" /\ Want(f, d) THEN "up" ELSE vis)
Flag(f) == /\ there /\ f # flag /\ flag' = f /\ Course(f, disabled) /\ act' = [op |-> "flag", to |-> f] /\ UNCHANGED <<there, disabled, cfg>>
Disable(d) == /\ there /\ ~cfg.bound /\ d # disabled /\ disabled' = d /\ Course(flag, d) /\ act' = [op |-> "disable", to |-> d] /\ UNCHANGED <<there, flag, cfg>>
Tick == /\ vis \in {"up", "down"} /\ act' = [op |-> "time", ms |-> 60] /\ UNCHANGED vars
Wait == /\ vis \notin {"yes", "no"}
        /\ vis' = (IF there /\ Want(flag, disabled) THEN "yes" ELSE "no")
        /\ act' = [op |-> "time", ms |-> 2000] /\ UNCHANGED <<there, flag, disabled, cfg>>
Remove == /\ there /\ there' = FALSE /\ vis' = (IF vis = "no" THEN "no" ELSE "left")
          /\ act' = [op |-> "there", to |-> FALSE] /\ UNCHANGED <<flag, disabled, cfg>>
Return == /\ ~there /\ vis = "no" /\ there' = TRUE /\ vis' = (IF Want(flag, disabled) THEN "up" ELSE "no")
          /\ act' = [op |-> "there", to |-> TRUE] /\ UNCHANGED <<flag, disabled, cfg>>

Next == \/ \E b \in BOOLEAN : Flag(b) \/ Disable(b)
        \/ Tick \/ Wait \/ Remove \/ Return

----------------------------------------------------------------------------
TypeOK == vis \in {"yes", "no", "up", "down", "left"}
Settled == there => (vis = "yes" => Want(flag, disabled)) /\ (vis = "no" => ~Want(flag, disabled))

Obs == [shown |-> IF vis = "yes" THEN TRUE ELSE IF vis \in {"no", "left"} THEN FALSE ELSE "*",
        listening |-> IF vis = "no" THEN 0 ELSE "*",
        flag |-> flag]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, disabled |-> disabled, flag |-> flag], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
