------------------------------- MODULE Toggles -------------------------------
(* Checkboxes, switches and radios that share one bound value.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,        \* check1, checkN, checkset, switch1, switchN, radioN, radioset
          Reps,         \* how the abstract values are represented
          Guards,       \* none, now (answers at once) or later
          MaxPend

VARIABLES val,          \* members of the bound value; <<>> is the unchecked value, "z" stands for no control
          pend,         \* toggles waiting for their guard: <<[c, on]>>
          start,        \* <<value, control with the checked setting>> at the beginning, forgotten with the first step
          cfg, act
vars == <<val, pend, start, cfg>>
View == vars

Multi == cfg.kind \in {"checkN", "checkset", "switchN"}
Radio == cfg.kind \in {"radioN", "radioset"}
Single == cfg.kind \in {"check1", "switch1"}
Controls == IF Single THEN {"a"} ELSE {"a", "b", "c"}
Has(v, c) == \E i \in DOMAIN v : v[i] = c
Without(v, c) == SelectSeq(v, LAMBDA x : x # c)
\* the value once c is present or not
Put(v, c, on) == IF ~Multi THEN (IF on THEN <<c>> ELSE <<>>)
                 ELSE IF ~on THEN Without(v, c) ELSE IF Has(v, c) THEN v ELSE Append(v, c)

Values(k) == IF k \in {"checkN", "checkset", "switchN"} THEN {<<>>, <<"a">>, <<"b", "a">>, <<"z">>, <<"z", "b">>}
             ELSE IF k \in {"check1", "switch1"} THEN {<<>>, <<"a">>, <<"z">>}
             ELSE {<<>>, <<"a">>, <<"b">>, <<"z">>}
Starts(k) == IF k \in {"checkset", "radioset"} THEN {"-"} ELSE IF k \in {"check1", "switch1"} THEN {"-", "a"} ELSE {"-", "b"}

\* the value bound when everything has been set up: single controls replace a value that is neither of theirs
Settled(v, ch) == IF ch # "-" THEN Put(v, ch, TRUE) ELSE IF Single /\ v = <<"z">> THEN <<>> ELSE v
Init == /\ cfg \in [kind : Kinds, rep : Reps, guard : Guards]
        /\ \E v \in Values(cfg.kind), ch \in Starts(cfg.kind) : /\ start = <<v, ch>> /\ val = Settled(v, ch)
        /\ pend = <<>> /\ act = [op |-> "init"]

Busy(c) == \E i \in DOMAIN pend : pend[i].c = c
Target(c) == IF Radio THEN TRUE ELSE ~Has(val, c)
Told(c) == << val, Put(val, c, Target(c)), c >>
Can(c) == c \in Controls /\ ~Busy(c) /\ (Radio => val # <<c>>)

Toggle(c) == /\ cfg.guard = "none" /\ Can(c) /\ val' = Put(val, c, Target(c))
             /\ act' = [op |-> "toggle", c |-> c, out |-> <<>>] /\ UNCHANGED <<pend, cfg>> /\ start' = <<>>
ToggleNow(c, ok) == /\ cfg.guard = "now" /\ Can(c) /\ val' = (IF ok THEN Put(val, c, Target(c)) ELSE val)
                    /\ act' = [op |-> "toggle", c |-> c, ok |-> ok, out |-> Told(c)] /\ UNCHANGED <<pend, cfg>> /\ start' = <<>>
ToggleLater(c) == /\ cfg.guard = "later" /\ Can(c) /\ Len(pend) < MaxPend /\ pend' = Append(pend, [c |-> c, on |-> Target(c)])
                  /\ act' = [op |-> "toggle", c |-> c, out |-> Told(c)] /\ UNCHANGED <<val, cfg>> /\ start' = <<>>
Answer(i, ok) == /\ i \in DOMAIN pend /\ val' = (IF ok THEN Put(val, pend[i].c, pend[i].on) ELSE val)
                 /\ pend' = SubSeq(pend, 1, i - 1) \o SubSeq(pend, i + 1, Len(pend))
                 /\ act' = [op |-> "answer", i |-> i, ok |-> ok] /\ UNCHANGED <<cfg>> /\ start' = <<>>
Assign(v) == /\ val' = v /\ act' = [op |-> "assign", to |-> v] /\ UNCHANGED <<pend, cfg>> /\ start' = <<>>
Clear == /\ val' = <<>> /\ act' = [op |-> "clear"] /\ UNCHANGED <<pend, cfg>> /\ start' = <<>>

Next == \/ \E c \in Controls : Toggle(c) \/ ToggleLater(c) \/ (\E ok \in BOOLEAN : ToggleNow(c, ok))
        \/ \E i \in 1..MaxPend, ok \in BOOLEAN : Answer(i, ok)
        \/ \E v \in Values(cfg.kind) : Assign(v)
        \/ Clear

----------------------------------------------------------------------------
TypeOK == Len(pend) <= MaxPend
NoDuplicates == \A i, j \in DOMAIN val : val[i] = val[j] => i = j
Vetoed == [][((act'.op = "answer" \/ (act'.op = "toggle" /\ cfg.guard = "now")) /\ ~act'.ok) => val' = val]_<<vars, act>>
OnlyIts == [][(act'.op = "toggle" /\ Multi) => Without(val', act'.c) = Without(val, act'.c)]_<<vars, act>>

\* a native radio or switch may move before its guard has answered
Obs == [val |-> val, shown |-> IF pend # <<>> /\ cfg.kind \notin {"check1", "checkN", "checkset"} THEN "*" ELSE [c \in Controls |-> Has(val, c)]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [x |-> cfg, start |-> start], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
