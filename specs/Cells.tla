------------------------------- MODULE Cells -------------------------------
(* The cells of a table (P51).  Columns are given as names, as definitions  *)
(* or not at all, and both they and the items may be replaced, replaced by  *)
(* equal ones or changed in place at any time.  A cell always shows what    *)
(* its own item holds under the key of the header it stands below.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Columns, Lists, Slots, Grown

VARIABLES cols,     \* which columns are given
          rows,     \* the items: their kind and whether the value of "a" was changed
          loading,
          cfg,
          act

vars == <<cols, rows, loading, cfg>>
View == vars

Plain(k) == [kind |-> k, v |-> 0]
KindsOf(l) ==
    CASE l = "even" -> <<"ab", "ab">>
      [] l = "turned" -> <<"ab", "ba">>
      [] l = "gap" -> <<"ab", "a">>
      [] l = "more" -> <<"b", "ab">>
      [] l = "deep" -> <<"abc", "an">>
      [] l = "one" -> <<"an">>
      [] l = "none" -> <<>>
RowsOf(l) == [i \in 1 .. Len(KindsOf(l)) |-> Plain(KindsOf(l)[i])]

\* the keys of an item, in the order in which it holds them
KeysOf(k) ==
    CASE k = "ab" -> <<"a", "b">>
      [] k = "ba" -> <<"b", "a">>
      [] k = "a" -> <<"a">>
      [] k = "b" -> <<"b">>
      [] k = "an" -> <<"a", "b">>
      [] k = "abc" -> <<"a", "b", "c">>
Holds(k, f) == \E i \in 1 .. Len(KeysOf(k)) : KeysOf(k)[i] = f

RECURSIVE Union(_, _)
Union(s, t) ==
    IF t = <<>> THEN s
    ELSE Union(IF \E i \in 1 .. Len(s) : s[i] = Head(t) THEN s ELSE Append(s, Head(t)), Tail(t))
RECURSIVE Found(_, _)
Found(s, rs) == IF rs = <<>> THEN s ELSE Found(Union(s, KeysOf(Head(rs).kind)), Tail(rs))

Keys == CASE cols = "no" -> Found(<<>>, rows)
          [] cols = "names" -> <<"b", "a">>
          [] cols = "path" -> <<"c.d", "a">>
          [] OTHER -> <<"a", "b">>
Label(k) == CASE cols = "defs" \/ cols = "joined" \/ cols = "marked" -> (IF k = "a" THEN "A" ELSE "B")
              [] cols = "renamed" -> (IF k = "a" THEN "First" ELSE "B")
              [] OTHER -> k

Mark(i) == IF rows[i].v = 1 THEN "!" ELSE ""
\* what the item holds, as shown
Value(i, k) ==
    CASE k = "a" /\ Holds(rows[i].kind, "a") -> "a" \o ToString(i) \o Mark(i)
      [] k = "b" /\ rows[i].kind \notin {"an", "a"} -> "b" \o ToString(i)
      [] k = "c" /\ rows[i].kind = "abc" -> "*"
      [] k = "c.d" /\ rows[i].kind = "abc" -> "d" \o ToString(i)
      [] OTHER -> ""
\* a definition may turn the value into something else, with the whole item at hand
Shown(i, k) ==
    CASE cols = "joined" /\ k = "b" -> Value(i, "b") \o "/" \o Value(i, "a")
      [] cols = "marked" /\ k = "b" -> Value(i, "b") \o "?" \o Value(i, "a")
      [] OTHER -> Value(i, k)
Cell(i, k) ==
    [l |-> IF loading THEN "" ELSE Label(k),
     t |-> IF loading THEN "~"
           ELSE IF cfg.slots = "key" /\ k = "a" THEN "<" \o Shown(i, k) \o "|" \o Value(i, "b") \o ">"
           ELSE Shown(i, k),
     w |-> IF cols = "joined" /\ k = "b" THEN "right" ELSE ""]

Heads == [j \in 1 .. Len(Keys) |-> IF cfg.slots = "key" /\ Keys[j] = "a" THEN "<" \o Label("a") \o ">" ELSE Label(Keys[j])]
Obs == [heads |-> Heads,
        rows |-> [i \in 1 .. Len(rows) |-> [j \in 1 .. Len(Keys) |-> Cell(i, Keys[j])]],
        empty |-> IF rows # <<>> THEN "" ELSE IF loading THEN "loading" ELSE "NO DATA"]

Init ==
    /\ \E s \in Slots : cfg = [slots |-> s]
    /\ cols \in Columns
    /\ \E l \in Lists : rows = RowsOf(l)
    /\ loading = FALSE
    /\ act = [op |-> "init"]

SetCols ==
    \E c \in Columns :
        /\ c # cols
        /\ cols' = c
        /\ UNCHANGED <<rows, loading, cfg>>
        /\ act' = [op |-> "cols", to |-> c]

SetItems ==
    \E l \in Lists :
        /\ RowsOf(l) # rows
        /\ rows' = RowsOf(l)
        /\ UNCHANGED <<cols, loading, cfg>>
        /\ act' = [op |-> "items", to |-> KindsOf(l)]

\* other objects that hold the same
Copy ==
    /\ UNCHANGED vars
    /\ act' = [op |-> "copy"]
CopyCols ==
    /\ UNCHANGED vars
    /\ act' = [op |-> "copy-cols"]

Touch ==
    \E i \in 1 .. Len(rows) :
        /\ rows[i].v = 0
        /\ Holds(rows[i].kind, "a")
        /\ rows' = [rows EXCEPT ![i].v = 1]
        /\ UNCHANGED <<cols, loading, cfg>>
        /\ act' = [op |-> "touch", i |-> i]

Push ==
    /\ Len(rows) < Grown
    /\ rows' = Append(rows, Plain("ba"))
    /\ UNCHANGED <<cols, loading, cfg>>
    /\ act' = [op |-> "push", kind |-> "ba"]
Drop ==
    /\ Len(rows) > 0
    /\ rows' = SubSeq(rows, 1, Len(rows) - 1)
    /\ UNCHANGED <<cols, loading, cfg>>
    /\ act' = [op |-> "drop"]

Load ==
    /\ loading' = ~loading
    /\ UNCHANGED <<cols, rows, cfg>>
    /\ act' = [op |-> "load", to |-> ~loading]

\* a click names the cell and hands over the very item that was given
Click ==
    \E i \in 1 .. Len(rows), j \in 1 .. Len(Keys) :
        /\ UNCHANGED vars
        /\ act' = [op |-> "click", i |-> i, j |-> j,
                   out |-> [key |-> Keys[j], value |-> Shown(i, Keys[j]), row |-> i - 1, col |-> j - 1, own |-> TRUE]]

Next == SetCols \/ SetItems \/ Copy \/ CopyCols \/ Touch \/ Push \/ Drop \/ Load \/ Click
Spec == Init /\ [][Next]_vars

TypeOK ==
    /\ cols \in Columns
    /\ loading \in BOOLEAN
    /\ \A i \in 1 .. Len(rows) : rows[i].v \in {0, 1}
\* every row has a cell below every header, and no other
Even == \A i \in 1 .. Len(Obs.rows) : Len(Obs.rows[i]) = Len(Obs.heads)
\* without columns, no value goes unseen
Complete ==
    cols = "no" => \A i \in 1 .. Len(rows) : \A f \in {"a", "b", "c"} :
        Holds(rows[i].kind, f) => \E j \in 1 .. Len(Keys) : Keys[j] = f
\* a change of one item leaves the other rows as they are
OneRow ==
    [][act'.op = "touch" =>
        \A i \in 1 .. Len(rows) : i # act'.i => Obs'.rows[i] = Obs.rows[i]]_<<vars, act>>

EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [slots |-> cfg.slots, cols |-> cols, kinds |-> [j \in 1 .. Len(rows) |-> rows[j].kind]], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
