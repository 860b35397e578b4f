------------------------------- MODULE Groups -------------------------------
(* A list shown in groups.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems, MaxOrder, Names, Extra

VARIABLES items,        \* the group each item names; "" for none
          order,        \* declared order of groups
          by,           \* "none", "item" (the item names its group) or "index" (every other item)
          cfg, act
vars == <<items, order, by, cfg>>
View == vars

SeqsOf(s, n) == UNION {[1..k -> s] : k \in 0..n}
Groups == Names \cup {""}
Declared == Names \cup Extra
Orders == SeqsOf(Declared, MaxOrder)

Evens == CHOOSE n \in Names : TRUE
Init == /\ items \in SeqsOf(Groups, 1) /\ order \in Orders /\ by \in {"none", "item", "index"}
        /\ cfg = [evens |-> Evens] /\ act = [op |-> "init"]

GroupOf(i) == IF by = "index" THEN (IF i % 2 = 1 THEN Evens ELSE "") ELSE items[i]
Members(g) == SelectSeq([i \in DOMAIN items |-> i], LAMBDA i : GroupOf(i) = g)
\* keeps the first of equal entries
Firsts(s) == LET RECURSIVE f(_) f(n) == IF n = 0 THEN <<>> ELSE LET r == f(n - 1) IN
                    IF \E k \in DOMAIN r : r[k] = s[n] THEN r ELSE Append(r, s[n]) IN f(Len(s))
InItems == SelectSeq(Firsts([i \in DOMAIN items |-> GroupOf(i)]), LAMBDA g : g # "")
Has(s, g) == \E k \in DOMAIN s : s[k] = g
Named == LET d == SelectSeq(Firsts(order), LAMBDA g : Has(InItems, g)) IN
         d \o SelectSeq(InItems, LAMBDA g : ~Has(d, g))
Shown == IF by = "none" THEN (IF items = <<>> THEN <<>> ELSE << <<"-", [i \in DOMAIN items |-> i]>> >>)
         ELSE [k \in DOMAIN Named |-> <<Named[k], Members(Named[k])>>]
              \o (IF Members("") = <<>> THEN <<>> ELSE << <<"", Members("")>> >>)

Push(g) == /\ Len(items) < MaxItems /\ items' = Append(items, g) /\ act' = [op |-> "items", to |-> items'] /\ UNCHANGED <<order, by, cfg>>
Swap(g) == /\ items # <<>> /\ items' = Append(Tail(items), g) /\ act' = [op |-> "items", to |-> items'] /\ UNCHANGED <<order, by, cfg>>
Drop == /\ items # <<>> /\ items' = Tail(items) /\ act' = [op |-> "items", to |-> items'] /\ UNCHANGED <<order, by, cfg>>
Declare(d) == /\ order' = (IF Len(order) < MaxOrder THEN Append(order, d) ELSE <<d>>)
              /\ act' = [op |-> "order", to |-> order'] /\ UNCHANGED <<items, by, cfg>>
By(b) == /\ b # by /\ by' = b /\ act' = [op |-> "by", to |-> b] /\ UNCHANGED <<items, order, cfg>>
At(i) == CHOOSE p \in {<<x, y>> : x \in DOMAIN Shown, y \in 1..MaxItems} : p[2] \in DOMAIN Shown[p[1]][2] /\ Shown[p[1]][2][p[2]] = i
Click(i) == /\ act' = [op |-> "click", item |-> i, out |-> LET p == At(i) IN <<i, Shown[p[1]][1], p[1], p[2]>>] /\ UNCHANGED vars

Next == \/ \E g \in Groups : Push(g) \/ Swap(g)
        \/ Drop
        \/ \E d \in Declared : Declare(d)
        \/ \E b \in {"none", "item", "index"} : By(b)
        \/ \E i \in DOMAIN items : Click(i)

----------------------------------------------------------------------------
TypeOK == Len(items) <= MaxItems
All == LET RECURSIVE f(_) f(n) == IF n = 0 THEN <<>> ELSE f(n - 1) \o Shown[n][2] IN f(Len(Shown))
EveryItemOnce == Len(All) = Len(items) /\ \A i \in DOMAIN items : Has(All, i)
UngroupedLast == by = "none" \/ \A k \in DOMAIN Shown : Shown[k][1] = "" => k = Len(Shown)

Obs == [shown |-> Shown]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [items |-> items, order |-> order, by |-> by, evens |-> Evens], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
