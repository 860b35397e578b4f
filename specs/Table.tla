-------------------------------- MODULE Table --------------------------------
(* Which rows a table shows: search, sort, page and page size.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lists,    \* names of the item lists
          Terms,    \* search terms
          Sizes,    \* page sizes, 99 for all
          Modes,    \* "client", "inner" (page and size not bound), "server", "off"
          Cols      \* sortable columns

VARIABLES list, term, dir, col, size, page, cfg, act
vars == <<list, term, dir, col, size, page, cfg>>
View == vars

ListOf(n) == CASE n = "five" -> <<1, 2, 3, 4, 5>> [] n = "four" -> <<5, 4, 3, 2>>
               [] n = "three" -> <<3, 1, 2>> [] n = "tail" -> <<3, 2, 4>> [] n = "one" -> <<4>> [] n = "none" -> <<>>
\* sort keys of the rows; 90 stands for no value, which goes last
Key(r, c) == CASE c = "k" -> <<2, 1, 2, 90, 3>>[r] [] c = "g" -> <<1, 3, 2, 2, 1>>[r]
Hits(t) == CASE t = "" -> 1..5 [] t = "alpha" -> {1, 2, 4, 5} [] t = "BETA" -> {1, 3, 4} [] t = "zzz" -> {}
\* the server mode is told this number of items
ServerCount == 5

RECURSIVE Insert(_, _, _)
\* descending is the reverse order of keys with ties still in item order
Before(a, b, d) == IF d = 1 THEN Key(a, col) <= Key(b, col) ELSE Key(a, col) >= Key(b, col)
Insert(s, r, d) == IF s = <<>> THEN <<r>>
                   ELSE IF Before(s[Len(s)], r, d) THEN Append(s, r)
                   ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), r, d), s[Len(s)])
RECURSIVE Sorted(_, _)
Sorted(s, d) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1), d), s[Len(s)], d)

Filtered(l, t) == SelectSeq(ListOf(l), LAMBDA r : r \in Hits(t))
Ordered == IF dir = 0 THEN Filtered(list, term) ELSE Sorted(Filtered(list, term), dir)
Count(l, t) == IF cfg.mode = "server" THEN ServerCount ELSE Len(Filtered(l, t))
Pages(l, t, s) == IF s = 99 THEN 1 ELSE (Count(l, t) + s - 1) \div s
Min(a, b) == IF a < b THEN a ELSE b
\* the page that exists; without any page the number is kept
Keep(p, l, t, s) == IF Pages(l, t, s) = 0 THEN p ELSE IF p < 0 THEN 0 ELSE Min(p, Pages(l, t, s) - 1)
Paged == cfg.mode # "off"
Start == IF size = 99 THEN 0 ELSE page * size
Shown == IF cfg.mode \in {"off", "server"} THEN Ordered
         ELSE SubSeq(Ordered, Start + 1, Min(Start + size, Len(Ordered)))

Init == /\ cfg \in [mode : Modes]
        /\ list \in Lists /\ term = "" /\ dir = 0 /\ col = "-"
        /\ size = (CHOOSE s \in Sizes : \A q \in Sizes : s <= q)
        /\ page = 0 /\ act = [op |-> "init"]

SetItems(l) == /\ list' = l /\ page' = Keep(page, l, term, size)
               /\ act' = [op |-> "items", to |-> l] /\ UNCHANGED <<term, dir, col, size, cfg>>
Search(t) == /\ t # term /\ term' = t /\ page' = Keep(page, list, t, size)
             /\ act' = [op |-> "search", to |-> t] /\ UNCHANGED <<list, dir, col, size, cfg>>
Sort(c) == /\ dir' = (dir + 1) % 3 /\ col' = IF dir' = 0 THEN "-" ELSE c
           /\ act' = [op |-> "sort", to |-> c] /\ UNCHANGED <<list, term, size, page, cfg>>
Click(p) == /\ Paged /\ p < Pages(list, term, size) /\ page' = p
            /\ act' = [op |-> "page", to |-> p] /\ UNCHANGED <<list, term, dir, col, size, cfg>>
Assign(p) == /\ cfg.mode \in {"client", "server"} /\ p # page /\ Pages(list, term, size) > 0
             /\ page' = Keep(p, list, term, size)
             /\ act' = [op |-> "assignPage", to |-> p] /\ UNCHANGED <<list, term, dir, col, size, cfg>>
\* choosing a size starts again on the first page
Choose(s) == /\ Paged /\ s # size /\ Pages(list, term, size) > 0
             /\ size' = s /\ page' = 0
             /\ act' = [op |-> "size", to |-> s] /\ UNCHANGED <<list, term, dir, col, cfg>>
AssignSize(s) == /\ cfg.mode \in {"client", "server"} /\ s # size
                 /\ size' = s /\ page' = Keep(page, list, term, s)
                 /\ act' = [op |-> "assignSize", to |-> s] /\ UNCHANGED <<list, term, dir, col, cfg>>

Next == \/ \E l \in Lists : SetItems(l)
        \/ \E t \in Terms : Search(t)
        \/ \E c \in Cols : Sort(c)
        \/ \E p \in 0..4 : Click(p)
        \/ \E p \in {0, 1, 4, 9} : Assign(p)
        \/ \E s \in Sizes : Choose(s) \/ AssignSize(s)

----------------------------------------------------------------------------
TypeOK == Pages(list, term, size) = 0 \/ (page >= 0 /\ page < Pages(list, term, size))
\* pages of the client partition the matching rows
NoEmptyPage == cfg.mode \in {"client", "inner"} /\ Len(Ordered) > 0 => Shown # <<>>
SortedRight == dir = 0 \/ \A i, j \in 1..Len(Ordered) : i < j =>
                  IF dir = 1 THEN Key(Ordered[i], col) <= Key(Ordered[j], col)
                  ELSE Key(Ordered[i], col) >= Key(Ordered[j], col)

HasPages == Paged /\ Pages(list, term, size) > 0
Obs == [rows |-> Shown, paged |-> Shown, all |-> Ordered,
        pages |-> IF HasPages THEN Pages(list, term, size) ELSE 0,
        current |-> IF HasPages THEN page + 1 ELSE 0,
        info |-> IF HasPages THEN <<Start + 1, IF size = 99 THEN Count(list, term) ELSE Min(Start + size, Count(list, term)), Count(list, term)>> ELSE <<>>,
        bound |-> IF cfg.mode \in {"client", "server"} THEN <<page, size>> ELSE <<>>,
        icon |-> IF dir = 0 THEN <<>> ELSE <<col, dir>>]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [mode |-> cfg.mode, list |-> list, size |-> size, sizes |-> Sizes], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
