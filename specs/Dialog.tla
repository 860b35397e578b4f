------------------------------- MODULE Dialog -------------------------------
(* Alert, confirm and prompt dialogs (and plain modals between them): which  *)
(* dialog an answer goes to, what it settles with, and what stays open.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Kinds, Containers,
          Texts,      \* what can be typed into a prompt; "" is the empty (invalid) input
          Where       \* include opening in a container that does not exist
ASSUME Kinds \subseteq {"plain", "alert", "confirm", "prompt", "number"}

VARIABLES order, val, cfg, act
vars == <<order, val, cfg>>
View == vars

Ids == 1..N
Range(s) == {s[k] : k \in 1..Len(s)}
Last(s) == s[Len(s)]
In(c) == SelectSeq(order, LAMBDA i : cfg[i].c = c)
Prompt(i) == cfg[i].k \in {"prompt", "number"}

Attr == [k : Kinds \ {"prompt", "number"}, c : Containers, init : {""}]
        \cup [k : Kinds \cap {"prompt", "number"}, c : Containers, init : {"", "7"}]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
AttrSeq == SetToSeq(Attr)
Cfgs == {[i \in Ids |-> AttrSeq[f[i]]] : f \in {g \in [Ids -> 1..Len(AttrSeq)] : \A i \in 1..(N - 1) : g[i] <= g[i + 1]}}

Init == /\ order = <<>> /\ cfg \in Cfgs
        /\ val = [i \in Ids |-> cfg[i].init]
        /\ act = [op |-> "init"]

\* What dialog i settles with when agreed to / turned down; plain modals settle nothing.
Yes(i) == CASE cfg[i].k = "alert" -> "undefined" [] cfg[i].k = "confirm" -> "true"
            [] cfg[i].k = "prompt" -> "text " \o val[i] [] OTHER -> "number " \o val[i]
No(i) == CASE cfg[i].k = "alert" -> "undefined" [] cfg[i].k = "confirm" -> "false" [] OTHER -> "null"
Settles(i, v) == IF cfg[i].k = "plain" THEN <<>> ELSE <<[i |-> i, v |-> v]>>

Remove(i) == /\ order' = SelectSeq(order, LAMBDA y : y # i)
             /\ val' = [val EXCEPT ![i] = cfg[i].init]
Agree(i, a) == IF Prompt(i) /\ val[i] = ""
               THEN UNCHANGED <<order, val>> /\ act' = a @@ [out |-> <<>>]
               ELSE Remove(i) /\ act' = a @@ [out |-> Settles(i, Yes(i))]
Refuse(i, a) == Remove(i) /\ act' = a @@ [out |-> Settles(i, No(i))]

Open(i) == /\ i \notin Range(order)
           /\ order' = Append(order, i)
           /\ act' = [op |-> "open", i |-> i, out |-> <<>>]
           /\ UNCHANGED <<val, cfg>>
\* opening where there is no such container answers at once, as turned down
OpenNowhere(k) == /\ Where /\ k # "plain"
                  /\ act' = [op |-> "openNowhere", k |-> k,
                             out |-> <<[i |-> 0, v |-> IF k = "alert" THEN "undefined" ELSE IF k = "confirm" THEN "false" ELSE "null"]>>]
                  /\ UNCHANGED vars
Type(i, t) == /\ i \in Range(order) /\ Prompt(i) /\ (cfg[i].k = "number" => t \in {"", "7", "12"})
              /\ val' = [val EXCEPT ![i] = t]
              /\ act' = [op |-> "type", i |-> i, t |-> t, out |-> <<>>]
              /\ UNCHANGED <<order, cfg>>
Ok(i) == /\ i \in Range(order) /\ cfg[i].k # "plain"
         /\ Agree(i, [op |-> "ok", i |-> i]) /\ UNCHANGED cfg
Cancel(i) == /\ i \in Range(order) /\ cfg[i].k \notin {"plain", "alert"}
             /\ Refuse(i, [op |-> "cancel", i |-> i]) /\ UNCHANGED cfg
Backdrop(i) == /\ i \in Range(order)
               /\ Refuse(i, [op |-> "backdrop", i |-> i]) /\ UNCHANGED cfg
CloseId(i) == /\ i \in Range(order)
              /\ Refuse(i, [op |-> "closeId", i |-> i]) /\ UNCHANGED cfg
Enter == /\ UNCHANGED cfg
         /\ IF order = <<>> \/ cfg[Last(order)].k = "plain"
            THEN UNCHANGED <<order, val>> /\ act' = [op |-> "enter", out |-> <<>>]
            ELSE Agree(Last(order), [op |-> "enter"])
Escape == /\ UNCHANGED cfg
          /\ IF order = <<>> THEN UNCHANGED <<order, val>> /\ act' = [op |-> "escape", out |-> <<>>]
             ELSE Refuse(Last(order), [op |-> "escape"])
RECURSIVE AllRefused(_, _)
AllRefused(S, i) == IF i > N THEN <<>> ELSE (IF i \in S THEN Settles(i, No(i)) ELSE <<>>) \o AllRefused(S, i + 1)
Clear(c) == /\ In(c) # <<>>
            /\ order' = SelectSeq(order, LAMBDA y : cfg[y].c # c)
            /\ val' = [i \in Ids |-> IF i \in Range(In(c)) THEN cfg[i].init ELSE val[i]]
            /\ act' = [op |-> "clear", c |-> c, out |-> AllRefused(Range(In(c)), 1)]
            /\ UNCHANGED cfg

Next == \/ \E i \in Ids : Open(i) \/ Ok(i) \/ Cancel(i) \/ Backdrop(i) \/ CloseId(i) \/ \E t \in Texts : Type(i, t)
        \/ \E c \in Containers : Clear(c)
        \/ Enter \/ Escape \/ \E k \in Kinds : OpenNowhere(k)

----------------------------------------------------------------------------
TypeOK == /\ \A j, k \in 1..Len(order) : order[j] = order[k] => j = k
          /\ \A i \in Ids : i \notin Range(order) => val[i] = cfg[i].init
Gone == Range(order) \ Range(order')
Named == {act'.out[k].i : k \in 1..Len(act'.out)} \ {0}
\* settled exactly when it goes away, once, and nobody else
SettledOnce == [][/\ Named = {i \in Gone : cfg[i].k # "plain"}
                  /\ \A j, k \in 1..Len(act'.out) : act'.out[j].i = act'.out[k].i => j = k]_<<vars, act>>
\* an answer given to one dialog removes no other
OnlyNamed == [][act'.op \in {"ok", "cancel", "backdrop", "closeId"} => Gone \subseteq {act'.i}]_<<vars, act>>
OnlyTop == [][act'.op \in {"enter", "escape"} => Gone = {} \/ Gone = {Last(order)}]_<<vars, act>>
InvalidStays == [][act'.op \in {"ok", "enter"} => \A i \in Gone : Prompt(i) => val[i] # ""]_<<vars, act>>

Obs == [shown |-> [c \in Containers |-> In(c)],
        typed |-> [i \in Ids |-> IF i \in Range(order) /\ Prompt(i) THEN val[i] ELSE "-"],
        depth |-> Len(order)]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
============================================================================
