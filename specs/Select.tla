------------------------------- MODULE Select --------------------------------
(* A select: its value, the options it offers, searching and the keyboard.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Looks,        \* subset of {"single", "multi", "collapsed"}
          Searches, Alls,   \* subsets of BOOLEAN: with a search box, with select-all
          Lists, DisSets, \* names of option lists; sets of disabled options
          Terms, Keys     \* search terms; whether the keyboard is modelled

VARIABLES list, dis, val, open, term, foc, cfg, act
vars == <<list, dis, val, open, term, foc, cfg>>
View == vars
\* val: the value as a sequence, in single mode of at most one option
\* foc: position of the keyboard focus in the open list, 0 for none

Two == {{}, {"b"}}
Three == {{}, {"b"}, {"a", "c"}}
Offered(l) == CASE l = "abc" -> <<"a", "b", "c">> [] l = "bc" -> <<"b", "c">> [] l = "cab" -> <<"c", "a", "b">>
                [] l = "d" -> <<"d">> [] l = "bdac" -> <<"b", "d", "a", "c">> [] OTHER -> <<>>
\* the labels of a and c contain "ap", those of b and c "an"; "d" has neither
Matches(t, o) == CASE t = "" -> TRUE [] t = "ap" -> o \in {"a", "c"} [] t = "AN" -> o \in {"b", "c"} [] OTHER -> FALSE
Range(s) == {s[i] : i \in DOMAIN s}
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
Only(s, S) == SelectSeq(s, LAMBDA x : x \in S)
IndexOf(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0

Multi == cfg.look # "single"
Opts == Offered(list)
Shown == IF open THEN SelectSeq(Opts, LAMBDA o : Matches(term, o)) ELSE <<>>
Enabled == SelectSeq(Shown, LAMBDA o : o \notin dis)
Stops(opts) == (IF cfg.search THEN <<"search">> ELSE <<>>) \o (IF cfg.all THEN <<"all">> ELSE <<>>) \o opts
EnabledAll == SelectSeq(Opts, LAMBDA o : o \notin dis)
At == IF foc = 0 THEN "-" ELSE Stops(Enabled)[foc]

Init == /\ cfg \in {[look |-> l, search |-> s, all |-> a] : l \in Looks, s \in Searches, a \in Alls}
        /\ (cfg.all => cfg.look # "single")
        /\ list = "abc" /\ dis \in DisSets /\ val = <<>> /\ open = FALSE /\ term = "" /\ foc = 0
        /\ act = [op |-> "init"]

Open == /\ open' = TRUE /\ term' = ""
        /\ foc' = (IF ~Keys THEN 0 ELSE IF cfg.search THEN 1 ELSE IF val = <<>> THEN 0 ELSE IndexOf(Stops(EnabledAll), val[1]))
Close == /\ open' = FALSE /\ term' = "" /\ foc' = 0
Still == UNCHANGED <<open, term, foc>>

\* what choosing option o does; a click elsewhere is no choice
Choose(o, how) ==
    /\ val' = (IF ~Multi THEN <<o>> ELSE IF o \in Range(val) THEN Without(val, {o}) ELSE Append(val, o))
    /\ IF Multi THEN Still ELSE Close
    /\ act' = [op |-> how.op, arg |-> how.arg, out |-> IF val' = val THEN <<>> ELSE <<val'>>]
    /\ UNCHANGED <<list, dis, cfg>>
AllOn == Enabled # <<>> /\ Range(Enabled) \subseteq Range(val)
ChooseAll(how) ==
    /\ val' = (IF AllOn THEN Without(val, Range(Enabled)) ELSE val \o Without(Enabled, Range(val)))
    /\ Still /\ act' = [op |-> how.op, arg |-> how.arg, out |-> IF val' = val THEN <<>> ELSE <<val'>>]
    /\ UNCHANGED <<list, dis, cfg>>

Trigger == /\ IF open THEN Close ELSE Open
           /\ act' = [op |-> "trigger", out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
Outside == /\ open /\ Close /\ act' = [op |-> "outside", out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
Pick(o) == /\ o \in Range(Enabled) /\ Choose(o, [op |-> "pick", arg |-> o])
\* a disabled option that is not selected
PickOff(o) == /\ o \in Range(Shown) /\ o \in dis /\ o \notin Range(val)
              /\ IF Multi THEN Still ELSE (open' = FALSE /\ term' = "" /\ foc' = 0)
              /\ act' = [op |-> "pick", arg |-> o, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
PickAll == /\ open /\ cfg.all /\ ChooseAll([op |-> "all", arg |-> ""])
Search(t) == /\ open /\ cfg.search /\ t # term /\ (Keys => foc = 1)
             /\ term' = t /\ act' = [op |-> "search", arg |-> t, out |-> <<>>] /\ UNCHANGED <<list, dis, val, open, foc, cfg>>
Chip(o) == /\ Multi /\ o \in Range(val) /\ (cfg.look = "collapsed" => o = val[1])
           /\ val' = Without(val, {o}) /\ Still
           /\ act' = [op |-> "chip", arg |-> o, out |-> <<val'>>] /\ UNCHANGED <<list, dis, cfg>>
Clear(how) == /\ (how = "button" => val # <<>>) /\ (Keys => term = "" \/ foc = 1)
              /\ val' = <<>> /\ term' = "" /\ UNCHANGED <<open, foc>>
              /\ act' = [op |-> "clear", arg |-> how, out |-> IF val = <<>> THEN <<>> ELSE <<val'>>] /\ UNCHANGED <<list, dis, cfg>>
Values == IF Multi THEN {<<>>, <<"a">>, <<"b", "c">>, <<"c", "z", "a">>} ELSE {<<>>, <<"b">>, <<"c">>, <<"z">>}
Assign(v) == /\ v # val /\ (Keys => ~open)
             /\ val' = Only(v, Range(Opts)) /\ Still
             /\ act' = [op |-> "assign", arg |-> v, out |-> "*"] /\ UNCHANGED <<list, dis, cfg>>
\* `how`: a new list, or the same one changed in place
Options(l, how) == /\ l # list /\ (Keys => ~open)
                   /\ list' = l /\ val' = Only(val, Range(Offered(l))) /\ Still
                   /\ act' = [op |-> "options", arg |-> Offered(l), how |-> how, out |-> "*"] /\ UNCHANGED <<dis, cfg>>
Disable(d) == /\ d # dis /\ (Keys => ~open)
              /\ dis' = d /\ Still
              /\ act' = [op |-> "disable", arg |-> d, out |-> <<>>] /\ UNCHANGED <<list, val, cfg>>

Move(i) == foc' = i /\ UNCHANGED <<list, dis, val, open, term, cfg>>
Clamp(i) == LET n == Len(Stops(Enabled)) IN IF n = 0 THEN 0 ELSE IF i > n THEN n ELSE IF i < 1 THEN 1 ELSE i
Act(k) == [op |-> "key", arg |-> k]
Key(k) ==
    /\ Keys
    /\ CASE k = "ArrowDown" /\ ~open -> Open /\ act' = [op |-> "key", arg |-> k, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
         [] k = "ArrowDown" -> Move(Clamp(foc + 1)) /\ act' = [op |-> "key", arg |-> k, out |-> <<>>]
         [] k = "ArrowUp" /\ open -> Move(Clamp(foc - 1)) /\ act' = [op |-> "key", arg |-> k, out |-> <<>>]
         [] k = "Home" /\ open -> Move(Clamp(1)) /\ act' = [op |-> "key", arg |-> k, out |-> <<>>]
         [] k = "End" /\ open -> Move(Clamp(99)) /\ act' = [op |-> "key", arg |-> k, out |-> <<>>]
         [] k \in {"ArrowUp", "Home", "End"} -> Still /\ act' = [op |-> "key", arg |-> k, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
         [] k \in {"Enter", "Space"} /\ ~open -> Open /\ act' = [op |-> "key", arg |-> k, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
         [] k \in {"Enter", "Space"} /\ At \in {"-", "search"} -> Still /\ act' = [op |-> "key", arg |-> k, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
         [] k \in {"Enter", "Space"} /\ At = "all" -> ChooseAll(Act(k))
         [] k \in {"Enter", "Space"} -> Choose(At, Act(k))
         [] k = "Tab" /\ At = "search" -> Still /\ act' = [op |-> "key", arg |-> k, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>
         [] OTHER -> Close /\ act' = [op |-> "key", arg |-> k, out |-> <<>>] /\ UNCHANGED <<list, dis, val, cfg>>   \* Escape, Tab

\* the pointer moves the focus as the arrows do
Hover(o) == /\ Keys /\ open /\ IndexOf(Stops(Enabled), o) # 0
            /\ Move(IndexOf(Stops(Enabled), o)) /\ act' = [op |-> "hover", arg |-> o, out |-> <<>>]
\* opened and shut again before the list is there
Flash == Keys /\ ~open /\ act' = [op |-> "flash", out |-> <<>>] /\ UNCHANGED vars

All == {"a", "b", "c", "d"}
Next == \/ Trigger \/ Outside \/ PickAll \/ Flash
        \/ \E o \in All \cup {"all"} : Hover(o)
        \/ \E o \in All : Pick(o) \/ PickOff(o) \/ Chip(o)
        \/ \E t \in Terms : Search(t)
        \/ \E h \in {"button", "call"} : Clear(h)
        \/ \E v \in Values : Assign(v)
        \/ \E l \in Lists, h \in {"new", "same"} : Options(l, h)
        \/ \E d \in DisSets : Disable(d)
        \/ \E k \in {"ArrowDown", "ArrowUp", "Home", "End", "Enter", "Space", "Tab", "Escape"} : Key(k)

----------------------------------------------------------------------------
TypeOK == /\ Range(val) \subseteq Range(Opts) /\ Cardinality(Range(val)) = Len(val)
          /\ (~Multi => Len(val) <= 1) /\ foc \in 0..Len(Stops(Enabled))
ByUser == {"pick", "key", "all"}
\* the user never adds or removes a disabled option through the list
NotDisabled == [][act'.op \in ByUser /\ Multi => \A o \in dis : (o \in Range(val)) = (o \in Range(val'))]_<<vars, act>>
OrderKept == [][Multi /\ act'.op # "assign" => Only(val, Range(val')) = Only(val', Range(val))]_<<vars, act>>

Obs == [bound |-> val,
        text |-> IF cfg.look = "collapsed" /\ Len(val) > 1 THEN <<val[1], Len(val) - 1>> ELSE val,
        open |-> open,
        shown |-> [i \in DOMAIN Shown |-> [o |-> Shown[i], on |-> Shown[i] \in Range(val), off |-> Shown[i] \in dis]],
        all |-> IF open /\ cfg.all THEN (IF AllOn THEN "on" ELSE "off") ELSE "-",
        \* the highlight of an option does not survive its selection; where the focus is shows in what Enter does
        at |-> IF Keys /\ At \in {"-", "search", "all"} THEN At ELSE "*"]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [look |-> cfg.look, search |-> cfg.search, all |-> cfg.all, list |-> Opts, dis |-> dis], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
