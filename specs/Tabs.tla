-------------------------------- MODULE Tabs ---------------------------------
(* The selected entry of tabs or steps.  -1 stands for no selection.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L,            \* longest list
          Comps, Dirs   \* "tabs"/"steps", "h"/"v"

VARIABLES len, dis, alldis, sel, cfg, act
vars == <<len, dis, alldis, sel, cfg>>
View == vars

Init == /\ cfg \in [comp : Comps, dir : Dirs]
        /\ len = L /\ dis \in SUBSET (0..(L - 1)) /\ alldis = FALSE
        /\ sel \in {-1, 0, L - 1} /\ act = [op |-> "init"]

On(i) == i \in 0..(len - 1) /\ ~alldis /\ i \notin dis
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
After(i) == {j \in 0..(len - 1) : j > i /\ On(j)}
Before(i) == {j \in 0..(len - 1) : j < i /\ On(j)}
Pick(S, f(_)) == IF S = {} THEN sel ELSE f(S)
Moves(op, to) == /\ sel' = to
                 /\ act' = [op |-> op.op, arg |-> op.arg, out |-> IF to = sel THEN <<>> ELSE <<to>>]
                 /\ UNCHANGED <<len, dis, alldis, cfg>>

Click(i) == /\ i < len /\ Moves([op |-> "click", arg |-> i], IF On(i) THEN i ELSE sel)
Key(k) == /\ len > 0
          /\ Moves([op |-> "key", arg |-> k],
                   CASE k = "next" -> Pick(After(sel), Min) [] k = "prev" -> Pick(Before(sel), Max)
                     [] k = "Home" -> Pick(After(-1), Min) [] k = "End" -> Pick(Before(len), Max)
                     [] OTHER -> sel)
Go(k) == /\ cfg.comp = "tabs"
         /\ Moves([op |-> "go", arg |-> k], IF k = "next" THEN Pick(After(sel), Min) ELSE Pick(Before(sel), Max))
\* with nothing selected an index outside the list is kept as it was assigned; not tried
Assign(i) == /\ i # sel /\ (sel # -1 \/ i \in 0..(len - 1))
             /\ sel' = IF i \in 0..(len - 1) THEN i ELSE -1
             /\ act' = [op |-> "assign", arg |-> i] /\ UNCHANGED <<len, dis, alldis, cfg>>
Resize(n) == /\ n # len /\ len' = n /\ sel' = IF sel >= n THEN -1 ELSE sel
             /\ act' = [op |-> "resize", arg |-> n] /\ UNCHANGED <<dis, alldis, cfg>>
Flip(i) == /\ dis' = IF i \in dis THEN dis \ {i} ELSE dis \cup {i}
           /\ act' = [op |-> "flip", arg |-> dis'] /\ UNCHANGED <<len, alldis, sel, cfg>>
FlipAll == /\ alldis' = ~alldis /\ act' = [op |-> "flipAll", arg |-> alldis']
           /\ UNCHANGED <<len, dis, sel, cfg>>

Next == \/ \E i \in 0..(L - 1) : Click(i) \/ Flip(i)
        \/ \E k \in {"next", "prev", "Home", "End", "otherNext", "otherPrev"} : Key(k)
        \/ \E k \in {"next", "prev"} : Go(k)
        \/ \E i \in -1..L : Assign(i)
        \/ \E n \in 0..L : Resize(n)
        \/ FlipAll

----------------------------------------------------------------------------
TypeOK == sel = -1 \/ sel \in 0..(len - 1)
ByUser == {"click", "key", "go"}
\* the user only ever lands on an enabled entry
LandsEnabled == [][act'.op \in ByUser /\ sel' # sel => On(sel')]_<<vars, act>>
\* and nothing enabled is skipped on the way
Nearest == [][act'.op \in {"key", "go"} /\ act'.arg = "next" /\ sel' # sel => ~\E j \in 0..(len - 1) : sel < j /\ j < sel' /\ On(j)]_<<vars, act>>

Obs == [marked |-> IF sel = -1 THEN <<>> ELSE <<sel>>, bound |-> sel, count |-> len,
        off |-> [i \in 1..len |-> ~On(i - 1)]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [comp |-> cfg.comp, dir |-> cfg.dir, dis |-> dis, sel |-> sel, len |-> len], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
