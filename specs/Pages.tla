-------------------------------- MODULE Pages --------------------------------
(* Pagination: current page (0 based, -1 for none), page count and window.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Windows

VARIABLES n, w, dis, sel, act
vars == <<n, w, dis, sel>>
View == vars

Init == /\ n \in 1..MaxLen /\ w \in Windows /\ dis = FALSE /\ sel \in 0..(n - 1)
        /\ act = [op |-> "init"]

In(i) == i \in 0..(n - 1)
Clamp(i) == IF i < 0 THEN 0 ELSE IF i > n - 1 THEN n - 1 ELSE i
\* previous from nowhere stays nowhere or goes to the first page; both are fine, so it is not tried
User(op, to) == /\ sel' = IF dis THEN sel ELSE to
                /\ act' = [op |-> op, to |-> to, out |-> IF sel' = sel THEN <<>> ELSE <<sel'>>]
                /\ UNCHANGED <<n, w, dis>>
Page(i) == In(i) /\ sel' = (IF dis THEN sel ELSE i) /\ act' = [op |-> "page", to |-> i] /\ UNCHANGED <<n, w, dis>>
Prev(op) == sel >= 0 /\ User(op, Clamp(sel - 1))
NextP(op) == sel >= 0 /\ User(op, Clamp(sel + 1))
First(op) == User(op, 0)
Last(op) == User(op, n - 1)
SetPage(i) == In(i) /\ User("setPage", i)
\* with nothing selected a page outside is kept as it was assigned; not tried
Assign(i) == /\ i # sel /\ (sel # -1 \/ In(i)) /\ sel' = (IF In(i) THEN i ELSE -1)
             /\ act' = [op |-> "assign", to |-> i]
             /\ UNCHANGED <<n, w, dis>>
Length(m) == /\ m # n /\ n' = m /\ sel' = (IF sel >= m THEN -1 ELSE sel)
             /\ act' = [op |-> "length", to |-> m] /\ UNCHANGED <<w, dis>>
Window(x) == /\ x # w /\ w' = x /\ act' = [op |-> "window", to |-> x] /\ UNCHANGED <<n, dis, sel>>
Disable == /\ dis' = ~dis /\ act' = [op |-> "disabled", to |-> dis'] /\ UNCHANGED <<n, w, sel>>

Next == \/ \E i \in 0..(MaxLen - 1) : Page(i) \/ SetPage(i)
        \/ \E i \in -1..MaxLen : Assign(i)
        \/ Prev("prev") \/ NextP("next") \/ First("first") \/ Last("last")
        \/ Prev("goPrev") \/ NextP("goNext") \/ First("goFirst") \/ Last("goLast")
        \/ \E m \in 1..MaxLen : Length(m)
        \/ \E x \in Windows : Window(x)
        \/ Disable

----------------------------------------------------------------------------
TypeOK == sel = -1 \/ In(sel)
DisabledHolds == [][dis /\ act'.op \notin {"assign", "length"} => sel' = sel]_<<vars, act>>
\* only an assignment or a shorter list can leave no page selected
KeepsPage == [][sel # -1 /\ sel' = -1 => act'.op \in {"assign", "length"}]_<<vars, act>>

Obs == [bound |-> sel, marked |-> IF sel = -1 THEN <<>> ELSE <<sel + 1>>,
        shown |-> IF n < w THEN n ELSE w, contiguous |-> TRUE, inRange |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [n |-> n, w |-> w, sel |-> sel], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
