----------------------------- MODULE TableSelect -----------------------------
(* Rows chosen in a table.  Row 3 cannot be chosen by the user; row 5 is an   *)
(* item that is only sometimes in the table.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Given,    \* selections that can be assigned, by name
          Terms, Dirs, MaxSel

VARIABLES sel, list, page, dir, term, act
vars == <<sel, list, page, dir, term>>
View == vars

ListOf(n) == CASE n = "four" -> <<1, 2, 3, 4>> [] n = "swap" -> <<5, 3, 2, 1>>
GivenOf(n) == CASE n = "no" -> <<>> [] n = "fixed" -> <<3>> [] n = "mix" -> <<5, 3, 2>> [] n = "all" -> <<4, 2, 1>>
               [] n = "as many" -> <<1, 3, 5>>
Choosable == {1, 2, 4, 5}
Key(r) == <<2, 1, 2, 90, 3>>[r]
Hits(t) == IF t = "" THEN 1..5 ELSE {1, 3, 4}

Before(a, b, d) == IF d = 1 THEN Key(a) <= Key(b) ELSE Key(a) >= Key(b)
RECURSIVE Insert(_, _, _)
Insert(s, r, d) == IF s = <<>> THEN <<r>>
                   ELSE IF Before(s[Len(s)], r, d) THEN Append(s, r)
                   ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), r, d), s[Len(s)])
RECURSIVE Sorted(_, _)
Sorted(s, d) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1), d), s[Len(s)], d)
Filtered(l, t) == SelectSeq(ListOf(l), LAMBDA r : r \in Hits(t))
Ordered == IF dir = 0 THEN Filtered(list, term) ELSE Sorted(Filtered(list, term), dir)
Pages(l, t) == (Len(Filtered(l, t)) + 1) \div 2
Keep(p, l, t) == IF p >= Pages(l, t) THEN Pages(l, t) - 1 ELSE p
Min(a, b) == IF a < b THEN a ELSE b
Shown == SubSeq(Ordered, page * 2 + 1, Min(page * 2 + 2, Len(Ordered)))

Chosen(s) == {s[i] : i \in 1..Len(s)}
Rows == Chosen(ListOf(list)) \cap Choosable
AllOn == Rows \subseteq Chosen(sel)
Without(s, S) == SelectSeq(s, LAMBDA r : r \notin S)

Init == /\ list = "four" /\ sel \in {GivenOf(g) : g \in Given} /\ page = 0 /\ dir = 0 /\ term = ""
        /\ act = [op |-> "init"]

Toggle(r) == /\ r \in Chosen(Shown) \cap Choosable
             /\ sel' = IF r \in Chosen(sel) THEN Without(sel, {r}) ELSE Append(sel, r)
             /\ act' = [op |-> "row", r |-> r] /\ UNCHANGED <<list, page, dir, term>>
\* the header: drop the choosable rows when all are chosen, else add the missing ones in item order
Header == /\ sel' = IF AllOn THEN Without(sel, Rows)
                    ELSE sel \o SelectSeq(ListOf(list), LAMBDA r : r \in Rows \ Chosen(sel))
          /\ act' = [op |-> "header"] /\ UNCHANGED <<list, page, dir, term>>
Assign(g) == /\ GivenOf(g) # sel /\ sel' = GivenOf(g) /\ act' = [op |-> "assign", to |-> GivenOf(g)]
             /\ UNCHANGED <<list, page, dir, term>>
SetItems(l) == /\ list' = l /\ page' = Keep(page, l, term) /\ act' = [op |-> "items", to |-> ListOf(l)]
               /\ UNCHANGED <<sel, dir, term>>
Page(p) == /\ p < Pages(list, term) /\ p # page /\ page' = p /\ act' = [op |-> "page", to |-> p]
           /\ UNCHANGED <<sel, list, dir, term>>
Sort == /\ dir < Dirs /\ dir' = (dir + 1) % 3 /\ act' = [op |-> "sort"] /\ UNCHANGED <<sel, list, page, term>>
Search(t) == /\ t # term /\ term' = t /\ page' = Keep(page, list, t) /\ act' = [op |-> "search", to |-> t]
             /\ UNCHANGED <<sel, list, dir>>

Next == /\ \/ \E r \in 1..5 : Toggle(r)
           \/ Header
           \/ \E g \in Given : Assign(g)
           \/ \E l \in {"four", "swap"} : SetItems(l)
           \/ \E p \in 0..1 : Page(p)
           \/ Sort
           \/ \E t \in Terms : Search(t)
        /\ Len(sel') <= MaxSel

----------------------------------------------------------------------------
TypeOK == Len(sel) = Cardinality(Chosen(sel)) /\ Shown # <<>>
\* only row and header boxes and assignments change the selection
Untouched == [][act'.op \in {"items", "page", "sort", "search"} => sel' = sel]_<<vars, act>>
\* a row box changes nothing but its own row
OneRow == [][act'.op = "row" => Without(sel', {act'.r}) = Without(sel, {act'.r})]_<<vars, act>>
\* rows that cannot be chosen never come or go by the user
Fixed == [][act'.op \in {"row", "header"} => \A r \in 1..5 \ Choosable : (r \in Chosen(sel')) <=> (r \in Chosen(sel))]_<<vars, act>>

Obs == [sel |-> sel, rows |-> [i \in 1..Len(Shown) |-> <<Shown[i], IF Shown[i] \notin Choosable THEN "none" ELSE IF Shown[i] \in Chosen(sel) THEN "on" ELSE "off",
                                                                  IF Shown[i] \in Chosen(sel) THEN "marked" ELSE "plain">>],
        header |-> AllOn, part |-> ~AllOn /\ Rows \cap Chosen(sel) # {}]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [sel |-> sel, items |-> ListOf(list)], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
