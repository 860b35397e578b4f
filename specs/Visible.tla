------------------------------- MODULE Visible ------------------------------
(* A container that marks each of its children as in view or not, as far as   *)
(* the browser has told it, and every child as in view while switched off.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N

VARIABLES kids,         \* children present
          inview,       \* children in view when present
          off,          \* switched off
          margin,       \* margin in use
          due,          \* the browser has something to tell
          cfg, act
vars == <<kids, inview, off, margin, due, cfg>>
View == vars
Ids == 1..N

Init == /\ cfg \in [root : {"page", "outer", "self"}, inner : BOOLEAN, how : {"scroll", "auto"}]
        /\ kids \in SUBSET Ids /\ inview \in {{}, {1}} /\ off \in BOOLEAN /\ margin = 0 /\ due = ~off /\ act = [op |-> "init"]

None == [scrolled |-> <<>>]
Do(a) == act' = a @@ [out |-> None] /\ UNCHANGED cfg
Add(i) == i \notin kids /\ kids' = kids \cup {i} /\ due' = ~off /\ Do([op |-> "add", i |-> i]) /\ UNCHANGED <<inview, off, margin>>
Remove(i) == i \in kids /\ kids' = kids \ {i} /\ due' = (~off) /\ Do([op |-> "remove", i |-> i]) /\ UNCHANGED <<inview, off, margin>>
\* one child goes and another comes at once
Swap(i, j) == /\ i \in kids /\ j \notin kids /\ kids' = (kids \ {i}) \cup {j} /\ due' = ~off /\ Do([op |-> "swap", i |-> i, j |-> j])
              /\ UNCHANGED <<inview, off, margin>>
Scroll(s) == s # inview /\ inview' = s /\ due' = ~off /\ Do([op |-> "scroll", view |-> s]) /\ UNCHANGED <<kids, off, margin>>
Frame == due' = FALSE /\ Do([op |-> "frame"]) /\ UNCHANGED <<kids, inview, off, margin>>
Switch == off' = ~off /\ due' = off /\ Do([op |-> "switch"]) /\ UNCHANGED <<kids, inview, margin>>
Blink == due' = (~off) /\ Do([op |-> "blink"]) /\ UNCHANGED <<kids, inview, off, margin>>
Margin == margin' = 1 - margin /\ due' = ~off /\ Do([op |-> "margin"]) /\ UNCHANGED <<kids, inview, off>>
Top(i) == 7 + 100 * i + (IF cfg.root = "page" THEN 30 ELSE 0)
\* the child is brought into view at the top of what scrolls, and the browser tells so
Goto(i) == /\ i \in kids /\ inview' = {i} /\ due' = FALSE
           /\ act' = [op |-> "goto", i |-> i, out |-> [scrolled |-> <<cfg.root, Top(i)>>]] /\ UNCHANGED <<kids, off, margin, cfg>>
Next == \/ \E i \in Ids : Add(i) \/ Remove(i) \/ Goto(i)
        \/ \E i, j \in Ids : Swap(i, j)
        \/ \E s \in SUBSET Ids : Scroll(s)
        \/ Frame \/ Switch \/ Blink \/ Margin
Spec == Init /\ [][Next]_<<vars, act>>

TypeOK == kids \subseteq Ids /\ inview \subseteq Ids
Mark(i) == IF i \notin kids THEN "-" ELSE IF off \/ i \in inview THEN "yes" ELSE "no"
\* nothing is left to be told while switched off
OffIsAll == off => \A i \in kids : Mark(i) = "yes"
Obs == [marks |-> IF due THEN "*" ELSE [i \in Ids |-> Mark(i)], watching |-> IF off THEN 0 ELSE 1,
        root |-> IF off THEN "-" ELSE cfg.root, margin |-> IF off THEN "-" ELSE ToString(margin) \o "px"]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, kids |-> [i \in Ids |-> i \in kids], inview |-> [i \in Ids |-> i \in inview], off |-> off], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
