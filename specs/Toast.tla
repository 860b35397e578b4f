-------------------------------- MODULE Toast --------------------------------
(* Toasts: lifetime by timer, pointer hold, manual and bulk removal, grouping *)
(* by container and position.  Time advances in units by the action Tick.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Containers, Positions,
          Lives,        \* timeout in units; 0 stands for automatic closing switched off
          Late,         \* the containers that do not exist at first
          WithModal     \* a modal may be open in the first container at the same time

VARIABLES order,        \* visible toasts in showing order
          rem,          \* units left of each visible toast
          hov,          \* toasts the pointer rests on (at most one)
          there,        \* containers that exist
          modal, cfg, act
vars == <<order, rem, hov, there, modal, cfg>>
View == vars

Ids == 1..N
Range(s) == {s[k] : k \in 1..Len(s)}
Attr == [c : Containers, p : Positions, life : Lives]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
AttrSeq == SetToSeq(Attr)
Cfgs == {[i \in Ids |-> AttrSeq[f[i]]] : f \in {g \in [Ids -> 1..Len(AttrSeq)] : \A i \in 1..(N - 1) : g[i] <= g[i + 1]}}

Init == /\ order = <<>> /\ rem = [i \in Ids |-> 0] /\ hov = {} /\ modal = FALSE
        /\ there = Containers \ Late
        /\ cfg \in Cfgs /\ act = [op |-> "init"]

Drop(S) == /\ order' = SelectSeq(order, LAMBDA i : i \notin S)
           /\ hov' = hov \ S
           /\ rem' = [i \in Ids |-> IF i \in S THEN 0 ELSE rem[i]]
Same == UNCHANGED <<there, modal, cfg>>

Show(i) == /\ i \notin Range(order)
           /\ act' = [op |-> "show", i |-> i]
           /\ IF cfg[i].c \in there
              THEN order' = Append(order, i) /\ rem' = [rem EXCEPT ![i] = cfg[i].life] /\ UNCHANGED hov
              ELSE UNCHANGED <<order, rem, hov>>
           /\ Same
Appear(c) == /\ c \notin there /\ there' = there \cup {c}
             /\ act' = [op |-> "appear", c |-> c]
             /\ UNCHANGED <<order, rem, hov, modal, cfg>>
Timed == {i \in Range(order) : cfg[i].life > 0}
Tick == LET out == {i \in Timed : rem[i] <= 1} \ hov
        IN /\ order # <<>>
           /\ order' = SelectSeq(order, LAMBDA i : i \notin out)
           /\ rem' = [i \in Ids |-> IF i \in Timed \ out /\ rem[i] > 0 THEN rem[i] - 1 ELSE IF i \in out THEN 0 ELSE rem[i]]
           /\ act' = [op |-> "tick"] /\ UNCHANGED hov /\ Same
Over(i) == /\ i \in Range(order) /\ hov = {}
           /\ hov' = {i} /\ act' = [op |-> "over", i |-> i]
           /\ UNCHANGED <<order, rem>> /\ Same
Leave(i) == /\ i \in hov
            /\ IF i \in Timed /\ rem[i] = 0 THEN Drop({i}) ELSE hov' = {} /\ UNCHANGED <<order, rem>>
            /\ act' = [op |-> "leave", i |-> i] /\ Same
CloseBtn(i) == i \in Range(order) /\ Drop({i}) /\ act' = [op |-> "closeButton", i |-> i] /\ Same
Remove(i) == /\ Drop({i} \cap Range(order)) /\ act' = [op |-> "remove", i |-> i] /\ Same
Clear(c) == /\ Drop({i \in Range(order) : cfg[i].c = c}) /\ act' = [op |-> "clear", c |-> c] /\ Same
Modal == /\ WithModal /\ modal' = ~modal /\ act' = [op |-> "modal", on |-> ~modal]
         /\ UNCHANGED <<order, rem, hov, there, cfg>>

Next == \/ \E i \in Ids : Show(i) \/ Over(i) \/ Leave(i) \/ CloseBtn(i) \/ Remove(i)
        \/ \E c \in Containers : Appear(c) \/ Clear(c)
        \/ Tick \/ Modal

----------------------------------------------------------------------------
TypeOK == /\ hov \subseteq Range(order)
          /\ \A j, k \in 1..Len(order) : order[j] = order[k] => j = k
          /\ \A i \in Range(order) : cfg[i].c \in there /\ rem[i] <= cfg[i].life
\* an expired toast is only still there because the pointer rests on it
NoOverstay == \A i \in Range(order) : cfg[i].life > 0 /\ rem[i] = 0 => i \in hov
OrderKept == [][SelectSeq(order, LAMBDA y : y \in Range(order')) = SelectSeq(order', LAMBDA y : y \in Range(order))]_<<vars, act>>
\* only time takes toasts nobody named, and only those whose time has come
OnlyNamed == [][\A i \in Range(order) \ Range(order') :
                  \/ act'.op = "tick" /\ cfg[i].life > 0 /\ rem[i] <= 1 /\ i \notin hov
                  \/ act'.op \in {"closeButton", "remove", "leave"} /\ act'.i = i
                  \/ act'.op = "clear" /\ act'.c = cfg[i].c]_<<vars, act>>

Obs == [shown |-> [c \in Containers |-> [p \in Positions |-> SelectSeq(order, LAMBDA i : cfg[i].c = c /\ cfg[i].p = p)]],
        modal |-> modal]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [items |-> cfg, late |-> Late], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
