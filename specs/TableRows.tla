------------------------------ MODULE TableRows ------------------------------
(* Panels opened below the rows of a table, and what the functions given for  *)
(* its rows say.  `expandable`, `selectable` and `state` get an item, its     *)
(* place among the items and the items; a row stays open for as long as its   *)
(* item is in the table, wherever it is displayed.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,    \* which rows can be opened: "place" the 1st, 3rd .. item, "item" all but item 1
          Terms, Dirs, MaxOpen

VARIABLES open,     \* rows whose panel is open
          gone,     \* rows that left the table while open
          list, cols, page, dir, term, cfg, act
vars == <<open, gone, list, cols, page, dir, term, cfg>>
View == vars

ListOf(n) == CASE n = "four" -> <<1, 2, 3, 4>> [] n = "swap" -> <<5, 3, 2, 1>>
Key(r) == <<2, 1, 2, 90, 3>>[r]
Hits(t) == IF t = "" THEN 1..5 ELSE {1, 3, 4}

Before(a, b, d) == IF d = 1 THEN Key(a) <= Key(b) ELSE Key(a) >= Key(b)
RECURSIVE Insert(_, _, _)
Insert(s, r, d) == IF s = <<>> THEN <<r>>
                   ELSE IF Before(s[Len(s)], r, d) THEN Append(s, r)
                   ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), r, d), s[Len(s)])
RECURSIVE Sorted(_, _)
Sorted(s, d) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1), d), s[Len(s)], d)
Filtered(l, t) == SelectSeq(ListOf(l), LAMBDA r : r \in Hits(t))
Ordered == IF dir = 0 THEN Filtered(list, term) ELSE Sorted(Filtered(list, term), dir)
Pages(l, t) == (Len(Filtered(l, t)) + 1) \div 2
Keep(p, l, t) == IF p >= Pages(l, t) THEN Pages(l, t) - 1 ELSE p
Min(a, b) == IF a < b THEN a ELSE b
Shown == SubSeq(Ordered, page * 2 + 1, Min(page * 2 + 2, Len(Ordered)))

Of(s) == {s[i] : i \in 1..Len(s)}
Place(r) == CHOOSE i \in 1..4 : ListOf(list)[i] = r
CanOpen(r) == IF cfg = "place" THEN Place(r) % 2 = 1 ELSE r # 1
CanChoose(r) == IF cfg = "place" THEN Place(r) > 2 ELSE r # 3
State(r) == IF cfg = "place" THEN IF Place(r) = 2 THEN "error" ELSE "idle" ELSE IF r = 2 THEN "warning" ELSE "idle"

Init == /\ list = "four" /\ cols = "all" /\ open = {} /\ gone = {} /\ page = 0 /\ dir = 0 /\ term = ""
        /\ cfg \in Kinds /\ act = [op |-> "init"]

Toggle(r) == /\ r \in Of(Shown) /\ CanOpen(r) /\ r \notin gone
             /\ open' = IF r \in open THEN open \ {r} ELSE open \cup {r}
             /\ act' = [op |-> "toggle", r |-> r, out |-> IF r \in open THEN <<"*">> ELSE <<r>>]
             /\ UNCHANGED <<gone, list, cols, page, dir, term, cfg>>
SetItems(l) == /\ list' = l /\ page' = Keep(page, l, term) /\ act' = [op |-> "items", to |-> ListOf(l)]
               /\ open' = open \cap Of(ListOf(l)) /\ gone' = gone \cup (open \ Of(ListOf(l)))
               /\ UNCHANGED <<cols, dir, term, cfg>>
SetCols(c) == /\ c # cols /\ dir = 0 /\ term = "" /\ cols' = c /\ act' = [op |-> "cols", to |-> c]
              /\ UNCHANGED <<open, gone, list, page, dir, term, cfg>>
Page(p) == /\ p < Pages(list, term) /\ p # page /\ page' = p /\ act' = [op |-> "page", to |-> p]
           /\ UNCHANGED <<open, gone, list, cols, dir, term, cfg>>
Sort == /\ cols = "all" /\ dir < Dirs /\ dir' = (dir + 1) % 3 /\ act' = [op |-> "sort"]
        /\ UNCHANGED <<open, gone, list, cols, page, term, cfg>>
Search(t) == /\ cols = "all" /\ t # term /\ term' = t /\ page' = Keep(page, list, t) /\ act' = [op |-> "search", to |-> t]
             /\ UNCHANGED <<open, gone, list, cols, dir, cfg>>

Next == /\ \/ \E r \in 1..5 : Toggle(r)
           \/ \E l \in {"four", "swap"} : SetItems(l)
           \/ \E c \in {"all", "few"} : SetCols(c)
           \/ \E p \in 0..1 : Page(p)
           \/ Sort
           \/ \E t \in Terms : Search(t)
        /\ Cardinality(open' \cup gone') <= MaxOpen

----------------------------------------------------------------------------
TypeOK == open \subseteq Of(ListOf(list)) /\ open \cap gone = {} /\ Shown # <<>>
\* only a click on its own button opens or shuts the panel of an item that stays in the table
Steady == [][act'.op # "toggle" => \A r \in Of(ListOf(list')) \ gone' : (r \in open') <=> (r \in open)]_<<vars, act>>
OneRow == [][act'.op = "toggle" => open' \ {act'.r} = open \ {act'.r}]_<<vars, act>>

\* an open row whose item may no longer be opened has no button: whether its panel stays is left open
Panel(r) == IF r \in gone \/ (r \in open /\ ~CanOpen(r)) THEN "*" ELSE IF r \in open THEN "open" ELSE "shut"
Obs == [rows |-> [i \in 1..Len(Shown) |->
            [no |-> Shown[i], button |-> CanOpen(Shown[i]), box |-> CanChoose(Shown[i]), state |-> State(Shown[i]), panel |-> Panel(Shown[i])]]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [kind |-> cfg, items |-> ListOf(list)], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
