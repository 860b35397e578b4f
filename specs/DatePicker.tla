----------------------------- MODULE DatePicker ------------------------------
(* A date picker: its value, the format of its type, what it displays and the *)
(* picker of the browser.                                                     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values, Typed    \* values assigned from outside, texts entered by the user

VARIABLES type, val, shown, lock, cfg, act
vars == <<type, val, shown, lock, cfg>>
View == vars
\* shown: what the field displays, "*" after an entry that was refused;  lock: "", "disabled" or "readonly"
\* cfg.picker: the browser's picker works, is missing or refuses

Types == {"date", "time", "month", "datetime-local"}
TypeOf(v) == CASE v \in {"2026-05-18", "2025-01-31"} -> "date" [] v \in {"15:30", "00:00"} -> "time"
               [] v \in {"2026-05"} -> "month" [] v \in {"2026-05-18T15:30"} -> "datetime-local" [] OTHER -> "none"
Fits(v, t) == v = "" \/ TypeOf(v) = t
Display(v, t) == IF Fits(v, t) THEN v ELSE ""
Refused(v, t) == IF Fits(v, t) THEN <<>> ELSE <<"invalid " \o v>>

Init == /\ cfg \in {[picker |-> "works", first |-> ""], [picker |-> "missing", first |-> "2026-05-18"], [picker |-> "refuses", first |-> "2026-05"]}
        /\ type = "date" /\ val = cfg.first /\ shown = Display(val, type) /\ lock = "" /\ act = [op |-> "init"]

Now(v, t) == shown' = IF Display(v, t) = Display(val, type) THEN shown ELSE Display(v, t)
Assign(v) == /\ v # val /\ val' = v /\ Now(v, type)
             /\ act' = [op |-> "assign", to |-> v, out |-> Refused(v, type)] /\ UNCHANGED <<type, lock, cfg>>
\* the value stays as it is
Type(t) == /\ t # type /\ type' = t /\ Now(val, t) /\ shown # "*"
           /\ act' = [op |-> "type", to |-> t, out |-> <<>>] /\ UNCHANGED <<val, lock, cfg>>
Both(v, t) == /\ t # type /\ v # val /\ shown # "*" /\ type' = t /\ val' = v /\ Now(v, t)
              /\ act' = [op |-> "both", to |-> v, type |-> t, out |-> Refused(v, t)] /\ UNCHANGED <<lock, cfg>>
\* entries the browser lets through for the type
Enter(v) == /\ lock = "" /\ v # "" /\ v # shown /\ shown # "*" /\ TypeOf(v) \in {type, "none"}
            /\ v = "15:30:07" => type = "time"
            /\ v = "12026-05-18" => type = "date"
            /\ IF Fits(v, type) THEN val' = v /\ shown' = v /\ act' = [op |-> "enter", to |-> v, out |-> <<"change " \o v>>]
               ELSE val' = val /\ shown' = "*" /\ act' = [op |-> "enter", to |-> v, out |-> <<"invalid " \o v>>]
            /\ UNCHANGED <<type, lock, cfg>>
Empty(how) == /\ how # "call" => lock = ""
              /\ how # "call" => (shown # "" /\ shown # "*")
              /\ how = "call" => val # ""
              /\ val' = "" /\ shown' = (IF Display(val, type) = "" THEN shown ELSE "")
              /\ act' = [op |-> "empty", how |-> how, out |-> <<"clear", "change ">>] /\ UNCHANGED <<type, lock, cfg>>
Lock(l) == l # lock /\ lock' = l /\ act' = [op |-> "lock", to |-> l, out |-> <<>>] /\ UNCHANGED <<type, val, shown, cfg>>
Open(how) == /\ act' = [op |-> "open", how |-> how,
                        out |-> IF lock # "" THEN <<>> ELSE IF cfg.picker = "works" THEN <<"focus", "picker">> ELSE <<"focus">>]
             /\ UNCHANGED vars

Next == \/ \E v \in Values : Assign(v) \/ \E t \in Types : Both(v, t)
        \/ \E t \in Types : Type(t)
        \/ \E v \in Typed : Enter(v)
        \/ \E h \in {"button", "keys", "call"} : Empty(h)
        \/ \E l \in {"", "disabled", "readonly"} : Lock(l)
        \/ \E h \in {"click", "icon", "call"} : Open(h)

----------------------------------------------------------------------------
TypeOK == type \in Types /\ (shown # "*" => Fits(shown, type))
\* only fitting entries of the user become the value
Entered == [][act'.op = "enter" /\ val' # val => Fits(val', type)]_<<vars, act>>
\* a value that does not fit is left alone by everything but assignments, entries and clearing
Kept == [][val' # val => act'.op \in {"assign", "both", "enter", "empty"}]_<<vars, act>>

Obs == [bound |-> val, shown |-> shown, type |-> type]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
