------------------------------- MODULE Choices -------------------------------
(* The fields that offer a list: what each option is called, what it stands   *)
(* for, and what is left of the value when the list changes.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,    \* subset of {"radioset", "checkset", "select", "multiselect"}
          Shapes,   \* what is offered: objects standing for themselves, for one of their fields, or plain values
          Labels, Lists, MaxLen

VARIABLES list, lab, val, cfg, act
vars == <<list, lab, val, cfg>>
View == vars
\* lab: the field of an option that names it, "none" without;  val: the value, of at most one option in the single kinds

Offered(l) == CASE l = "abc" -> <<"a", "b", "c">> [] l = "dca" -> <<"d", "c", "a">> [] l = "bca" -> <<"b", "c", "a">>
                [] l = "b" -> <<"b">> [] OTHER -> <<>>
Range(s) == {s[i] : i \in DOMAIN s}
Only(s, S) == SelectSeq(s, LAMBDA x : x \in S)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Multi == cfg.kind \in {"checkset", "multiselect"}
IsSet == cfg.kind \in {"checkset", "radioset"}
Plain == cfg.shape \in {"number", "word"}
Opts == Offered(list)
\* an option without the field is shown whole
Called(o) == (IF Plain THEN "plain" ELSE IF lab \in {"none", "lost"} THEN "whole" ELSE lab) \o ":" \o o

Init == /\ cfg \in [kind : Kinds, shape : Shapes]
        /\ list = "abc" /\ lab = (IF cfg.shape \in {"number", "word"} THEN "none" ELSE "name")
        /\ val \in {<<>>, <<"a">>} /\ act = [op |-> "init"]

Said(v) == IF v = val THEN <<>> ELSE <<v>>
Pick(o) ==
    /\ o \in Range(Opts) /\ (Multi /\ o \notin Range(val) => Len(val) < MaxLen)
    /\ val' = (IF ~Multi THEN <<o>> ELSE IF o \in Range(val) THEN Without(val, o) ELSE Append(val, o))
    /\ act' = [op |-> "pick", o |-> o, called |-> Called(o), out |-> Said(val')] /\ UNCHANGED <<list, lab, cfg>>
\* a select takes no value it does not offer; a set keeps one that may be offered later
Assign(v) ==
    /\ v # val
    /\ val' = (IF IsSet THEN v ELSE Only(v, Range(Opts)))
    /\ act' = [op |-> "assign", v |-> v, out |-> "*"] /\ UNCHANGED <<list, lab, cfg>>
Options(l, how) ==
    /\ l # list
    /\ list' = l /\ val' = Only(val, Range(Offered(l)))
    /\ act' = [op |-> "options", l |-> Offered(l), how |-> how, out |-> IF IsSet THEN Said(val') ELSE "*"] /\ UNCHANGED <<lab, cfg>>
Label(k) ==
    /\ k # lab /\ ~Plain /\ lab' = k
    /\ act' = [op |-> "label", k |-> k, out |-> <<>>] /\ UNCHANGED <<list, val, cfg>>
Values == IF Multi THEN {<<>>, <<"a">>, <<"c", "d">>} ELSE {<<>>, <<"a">>, <<"d">>}
Next == \/ \E o \in {"a", "b", "c", "d"} : Pick(o)
        \/ \E v \in Values : Assign(v)
        \/ \E l \in Lists, how \in {"new", "in place"} : Options(l, how)
        \/ \E k \in Labels : Label(k)

----------------------------------------------------------------------------
TypeOK == Range(val) \subseteq {"a", "b", "c", "d"} /\ (~Multi => Len(val) <= 1)
Offers == ~IsSet => Range(val) \subseteq Range(Opts)
\* a change of the list takes only what it no longer offers, and a change of names nothing
Kept == [][/\ act'.op = "options" => \A o \in Range(val) : o \in Range(Opts') <=> o \in Range(val')
           /\ act'.op = "label" => val' = val]_<<vars, act>>

Names(s) == [i \in DOMAIN s |-> Called(s[i])]
Obs == [val |-> val,
        labels |-> IF IsSet THEN Names(Opts) ELSE <<>>,
        picked |-> IF IsSet THEN Names(Only(Opts, Range(val))) ELSE Names(val)]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [x |-> cfg, list |-> Opts, lab |-> lab, val |-> val], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
