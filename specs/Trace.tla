-------------------------------- MODULE Trace --------------------------------
(* The call trace that every assistant tool response carries.                 *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxSteps, Limits, Durs

VARIABLES steps,        \* <<[tool, parent, dur]>>, numbered by position; parent 0: none
          idle,         \* time units since the last recorded step
          cfg, act
vars == <<steps, idle, cfg>>
View == vars

Search == "search_vlossom"
Scaffold == "scaffold_vlossom_code"
Others == {"get_vlossom_reference", "validate_vlossom_usage"}
Roots == {Search, Scaffold}
Tools == Roots \cup Others
Never == 99

Init == /\ cfg \in [limit : Limits] /\ steps = <<>> /\ idle = 0 /\ act = [op |-> "init"]

RootsOf(s) == {i \in DOMAIN s : s[i].tool \in Roots}
Latest(s) == IF RootsOf(s) = {} THEN 0 ELSE CHOOSE i \in RootsOf(s) : \A j \in RootsOf(s) : j <= i
\* what a call finds: nothing left of an expired workflow, nor of any once a search starts
Base(tool) == IF tool = Search \/ idle > cfg.limit THEN <<>> ELSE steps
Sum(s) == LET RECURSIVE f(_) f(n) == IF n = 0 THEN 0 ELSE f(n - 1) + s[n].dur IN f(Len(s))
Count(s, t) == LET RECURSIVE f(_) f(n) == IF n = 0 THEN 0 ELSE f(n - 1) + (IF s[n].tool = t THEN 1 ELSE 0) IN f(Len(s))
Report(s) == [steps |-> [i \in DOMAIN s |-> <<i, s[i].tool, s[i].parent, s[i].dur>>],
              used |-> [t \in Tools |-> Count(s, t)], total |-> Sum(s)]

Call(tool, d) == /\ LET b == Base(tool)
                        p == IF tool \in Roots THEN 0 ELSE Latest(b)
                        s == Append(b, [tool |-> tool, parent |-> p, dur |-> d])
                    IN /\ Len(s) <= MaxSteps
                       /\ steps' = s
                       /\ act' = [op |-> "call", tool |-> tool, dur |-> d, out |-> Report(s)]
                 /\ idle' = 0 /\ UNCHANGED cfg
Wait == /\ idle < 3 /\ idle' = idle + 1 /\ act' = [op |-> "wait"] /\ UNCHANGED <<steps, cfg>>

Next == \/ \E t \in Tools, d \in Durs : Call(t, d)
        \/ Wait

----------------------------------------------------------------------------
TypeOK == Len(steps) <= MaxSteps
\* follow-ups hang on an earlier root, roots on nothing
Attached == \A i \in DOMAIN steps : IF steps[i].tool \in Roots THEN steps[i].parent = 0
                                    ELSE steps[i].parent < i /\ (steps[i].parent > 0 => steps[steps[i].parent].tool \in Roots)
\* at most one search per workflow, at its start
OneSearch == \A i \in DOMAIN steps : steps[i].tool = Search => i = 1

Obs == [quiet |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
