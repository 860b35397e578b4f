------------------------------- MODULE Modal -------------------------------
(* The modal service: modals stacked in containers, close requests and their *)
(* guards.  A request on a modal whose guard answers later stays pending     *)
(* until the guard answers; anything may happen in between.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,            \* modal slots; a slot may be reopened after it closed (a new instance)
          Containers, Guards, EscOpts, DimOpts,
          MaxPend       \* bound on simultaneously undecided requests
ASSUME Guards \subseteq {"none", "yes", "no", "undef", "later"}

VARIABLES order,        \* open modals over all containers, in opening order
          pend,         \* undecided requests: [i, src, live]; live: the instance is still open
          cfg, act
vars == <<order, pend, cfg>>
View == vars

Ids == 1..N
Attr == [c : Containers, g : Guards, esc : EscOpts, dim : DimOpts]
Range(s) == {s[k] : k \in 1..Len(s)}
Zero == [i \in Ids |-> 0]
One(i) == [Zero EXCEPT ![i] = 1]
In(c) == SelectSeq(order, LAMBDA i : cfg[i].c = c)
Last(s) == s[Len(s)]
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

Out(closed, asked, results, pinged) == [closed |-> closed, asked |-> asked, results |-> results, pinged |-> pinged]
Kill(p, S) == [k \in 1..Len(p) |-> IF p[k].i \in S THEN [p[k] EXCEPT !.live = FALSE] ELSE p[k]]

\* slots are interchangeable, so configurations are taken up to permutation
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
AttrSeq == SetToSeq(Attr)
Cfgs == {[i \in Ids |-> AttrSeq[f[i]]] : f \in {g \in [Ids -> 1..Len(AttrSeq)] : \A i \in 1..(N - 1) : g[i] <= g[i + 1]}}

Init == /\ order = <<>> /\ pend = <<>>
        /\ cfg \in Cfgs
        /\ act = [op |-> "init"]

Open(i) == /\ i \notin Range(order)
           /\ order' = Append(order, i)
           /\ act' = [op |-> "open", i |-> i, out |-> Out(Zero, Zero, <<>>, Zero)]
           /\ UNCHANGED <<pend, cfg>>
OpenNowhere == /\ act' = [op |-> "openNowhere", out |-> Out(Zero, Zero, <<>>, Zero)]
               /\ UNCHANGED vars

\* A request aimed at open modal i.
Request(i, src, a) ==
  LET service == src \in {"close", "closeId"}
      res(b) == IF service THEN <<b>> ELSE <<>>
  IN CASE cfg[i].g \in {"none", "yes", "undef"} ->
            /\ order' = SelectSeq(order, LAMBDA y : y # i)
            /\ pend' = Kill(pend, {i})
            /\ act' = a @@ [out |-> Out(One(i), IF cfg[i].g = "none" THEN Zero ELSE One(i), res(TRUE), Zero)]
       [] cfg[i].g = "no" ->
            /\ UNCHANGED <<order, pend>>
            /\ act' = a @@ [out |-> Out(Zero, One(i), res(FALSE), Zero)]
       [] cfg[i].g = "later" ->
            /\ Len(pend) < MaxPend
            /\ UNCHANGED order
            /\ pend' = Append(pend, [i |-> i, src |-> src, live |-> TRUE])
            /\ act' = a @@ [out |-> Out(Zero, One(i), <<>>, Zero)]

Nothing(a, results) == /\ UNCHANGED <<order, pend>>
                       /\ act' = a @@ [out |-> Out(Zero, Zero, results, Zero)]

CloseIn(c) == /\ UNCHANGED cfg
              /\ IF In(c) = <<>> THEN Nothing([op |-> "close", c |-> c], <<FALSE>>)
                 ELSE Request(Last(In(c)), "close", [op |-> "close", c |-> c])
CloseId(i) == /\ UNCHANGED cfg
              /\ IF i \notin Range(order) THEN Nothing([op |-> "closeId", i |-> i], <<FALSE>>)
                 ELSE Request(i, "closeId", [op |-> "closeId", i |-> i])
Escape == /\ UNCHANGED cfg
          /\ IF order = <<>> \/ ~cfg[Last(order)].esc THEN Nothing([op |-> "escape"], <<>>)
             ELSE Request(Last(order), "esc", [op |-> "escape"])
Backdrop(i) == /\ UNCHANGED cfg
               /\ i \in Range(order)
               /\ IF ~cfg[i].dim THEN Nothing([op |-> "backdrop", i |-> i], <<>>)
                  ELSE Request(i, "dim", [op |-> "backdrop", i |-> i])
Answer(k, b) ==
  LET p == pend[k]
      service == p.src \in {"close", "closeId"}
      closes == b /\ p.live
  IN /\ order' = IF closes THEN SelectSeq(order, LAMBDA y : y # p.i) ELSE order
     /\ pend' = IF closes THEN Kill(DropAt(pend, k), {p.i}) ELSE DropAt(pend, k)
     /\ act' = [op |-> "answer", k |-> k, b |-> b,
                out |-> Out(IF closes THEN One(p.i) ELSE Zero, Zero, IF service THEN <<b>> ELSE <<>>, Zero)]
     /\ UNCHANGED cfg
Clear(c) == /\ order' = SelectSeq(order, LAMBDA y : cfg[y].c # c)
            /\ pend' = Kill(pend, Range(In(c)))
            /\ act' = [op |-> "clear", c |-> c, out |-> Out([i \in Ids |-> IF i \in Range(In(c)) THEN 1 ELSE 0], Zero, <<>>, Zero)]
            /\ UNCHANGED cfg
EmitTop == /\ act' = [op |-> "emit", out |-> Out(Zero, Zero, <<>>, IF order = <<>> THEN Zero ELSE One(Last(order)))]
           /\ UNCHANGED vars
EmitId(i) == /\ act' = [op |-> "emitId", i |-> i, out |-> Out(Zero, Zero, <<>>, IF i \in Range(order) THEN One(i) ELSE Zero)]
             /\ UNCHANGED vars

Next == \/ \E i \in Ids : Open(i) \/ CloseId(i) \/ Backdrop(i) \/ EmitId(i)
        \/ \E c \in Containers : CloseIn(c) \/ Clear(c)
        \/ Escape \/ EmitTop \/ OpenNowhere
        \/ \E k \in 1..Len(pend), b \in BOOLEAN : Answer(k, b)

----------------------------------------------------------------------------
TypeOK == /\ Range(order) \subseteq Ids
          /\ \A j, k \in 1..Len(order) : order[j] = order[k] => j = k
          /\ \A k \in 1..Len(pend) : pend[k].live => pend[k].i \in Range(order)
Gone == Range(order) \ Range(order')
\* P02: whatever is removed was named by the action, is notified once, and nothing else is touched
OnlyNamed == [][ /\ \A i \in Ids : act'.out.closed[i] = (IF i \in Gone THEN 1 ELSE 0)
                 /\ act'.op \in {"close", "closeId", "escape", "backdrop", "answer"} => Cardinality(Gone) <= 1
                 /\ act'.op = "closeId" => Gone \subseteq {act'.i}
                 /\ act'.op = "backdrop" => Gone \subseteq {act'.i}
                 /\ act'.op = "close" => \A i \in Gone : i = Last(In(act'.c))
                 /\ act'.op = "escape" => \A i \in Gone : i = Last(order)
                 /\ act'.op = "clear" => \A i \in Ids : i \in Gone <=> i \in Range(In(act'.c)) ]_<<vars, act>>
OrderKept == [][SelectSeq(order, LAMBDA y : y \in Range(order')) = SelectSeq(order', LAMBDA y : y \in Range(order))]_<<vars, act>>
\* P03: a modal leaves only with its guard's consent, or by clearing
GuardRespected == [][\A i \in Gone : \/ act'.op = "clear"
                                     \/ cfg[i].g \in {"none", "yes", "undef"}
                                     \/ cfg[i].g = "later" /\ act'.op = "answer" /\ act'.b]_<<vars, act>>
OptionsRespected == [][/\ act'.op = "escape" => \A i \in Gone : cfg[i].esc
                       /\ act'.op = "backdrop" => \A i \in Gone : cfg[i].dim]_<<vars, act>>

Obs == [shown |-> [c \in Containers |-> In(c)], depth |-> Len(order)]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
============================================================================
