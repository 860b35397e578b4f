-------------------------------- MODULE Files -------------------------------
(* A file field: files come through the dialog or are dropped, in lots that   *)
(* are taken or refused as a whole, and leave one by one or all together.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Limits, Accepts

VARIABLES val,          \* the files of the field, in order
          note,         \* is the refusal of a lot shown? "?" when that is left open
          seen,         \* are messages of the rules shown? "?" when that is left open
          drag,         \* is something being dragged over the field?
          off,          \* is the field disabled?
          cfg, act
vars == <<val, note, seen, drag, off, cfg>>
View == vars

\* file 1 a.txt, 2 b.TXT without a type, 3 c.png, 4 another a.txt
AllLimits == {<<0, 9>>, <<2, 9>>, <<0, 2>>, <<2, 2>>}
Lots == {<<>>, <<1>>, <<3>>, <<1, 4>>, <<3, 1, 2>>}
Accepted(f) == CASE cfg.accept = "" -> TRUE
                 [] cfg.accept = ".txt" -> f # 3
                 [] cfg.accept = "image/*" -> f = 3
                 [] cfg.accept = "text/plain, .png" -> f # 2
                 [] cfg.accept = ".TXT,image/png" -> TRUE

Cfgs == {c \in [multiple : BOOLEAN, limits : Limits, accept : Accepts, required : BOOLEAN, drags : BOOLEAN] :
           /\ (c.accept # "" \/ c.required) => c.limits = <<0, 9>>
           /\ c.drags => (c.limits = <<0, 9>> /\ c.accept = "" /\ ~c.required)}
Init == /\ cfg \in Cfgs /\ val \in {<<>>, <<1>>} /\ note = "no" /\ seen = "no" /\ drag = "no" /\ off = FALSE
        /\ act = [op |-> "init"]

Ruled == cfg.accept # "" \/ cfg.required
Wrong(v) == (IF cfg.required /\ v = <<>> THEN 1 ELSE 0) + (IF \E i \in DOMAIN v : ~Accepted(v[i]) THEN 1 ELSE 0)
Refused(l) == (~cfg.multiple /\ Len(l) > 1) \/ Len(l) < cfg.limits[1] \/ Len(l) > cfg.limits[2]
Out(v, d) == [changes |-> IF v # val THEN <<v>> ELSE <<>>, dropped |-> d]
\* a value that changes makes the rules speak up
Speak(v) == seen' = IF Ruled /\ v # val THEN "yes" ELSE seen

Take(l, a, d) ==
    IF off \/ l = <<>>
    THEN /\ UNCHANGED <<val, note, seen>> /\ act' = a @@ [out |-> Out(val, IF off THEN <<>> ELSE d)]
    ELSE LET v == IF Refused(l) THEN val ELSE l IN
         /\ val' = v /\ note' = (IF Refused(l) THEN "yes" ELSE "no") /\ Speak(v) /\ act' = a @@ [out |-> Out(v, d)]
Dialog(l) == Take(l, [op |-> "dialog", files |-> l], <<>>) /\ UNCHANGED <<drag, off, cfg>>
Drop(l) == /\ Take(l, [op |-> "drop", files |-> l], <<l>>)
           /\ drag' = "no" /\ UNCHANGED <<off, cfg>>
Rest(i) == SubSeq(val, 1, i - 1) \o SubSeq(val, i + 1, Len(val))
\* whether an earlier refusal stays shown is left open
Remove(i) == /\ i \in DOMAIN val /\ ~off
             /\ val' = Rest(i) /\ Speak(Rest(i))
             /\ note' = IF Len(Rest(i)) < cfg.limits[1] THEN "yes" ELSE IF note = "no" THEN "no" ELSE "?"
             /\ act' = [op |-> "remove", i |-> i, out |-> Out(Rest(i), <<>>)]
             /\ UNCHANGED <<drag, off, cfg>>
Wipe == /\ val # <<>> /\ ~off /\ val' = <<>> /\ note' = "no" /\ seen' = IF Ruled THEN "?" ELSE "no"
        /\ act' = [op |-> "wipe", out |-> Out(<<>>, <<>>)] /\ UNCHANGED <<drag, off, cfg>>
Clear == /\ val' = <<>> /\ note' = "no" /\ seen' = "no"
         /\ act' = [op |-> "clear", out |-> Out(<<>>, <<>>)] /\ UNCHANGED <<drag, off, cfg>>
Assign(l) == /\ l # val /\ val' = l /\ Speak(l) /\ note' = (IF note = "no" THEN "no" ELSE "?")
             /\ act' = [op |-> "assign", files |-> l, out |-> Out(l, <<>>)] /\ UNCHANGED <<drag, off, cfg>>
\* no value at all is no file
Nothing == /\ val' = <<>> /\ Speak(<<>>)
           /\ note' = (IF note = "no" THEN "no" ELSE "?")
           /\ act' = [op |-> "nothing", out |-> Out(<<>>, <<>>)] /\ UNCHANGED <<drag, off, cfg>>
Validate == /\ Ruled /\ seen' = "yes"
            /\ act' = [op |-> "validate", out |-> [changes |-> <<>>, dropped |-> <<>>, ok |-> Wrong(val) = 0]]
            /\ UNCHANGED <<val, note, drag, off, cfg>>
Over == /\ cfg.drags /\ drag' = (IF off THEN drag ELSE "yes") /\ act' = [op |-> "over", out |-> Out(val, <<>>)] /\ UNCHANGED <<val, note, seen, off, cfg>>
Leave == /\ cfg.drags /\ drag' = "no" /\ act' = [op |-> "leave", out |-> Out(val, <<>>)] /\ UNCHANGED <<val, note, seen, off, cfg>>
\* nothing is dragged over a field that does not take it
Switch == /\ cfg.drags /\ off' = ~off /\ drag' = (IF drag = "no" THEN "no" ELSE "?")
          /\ act' = [op |-> "switch", out |-> Out(val, <<>>)] /\ UNCHANGED <<val, note, seen, cfg>>

Next == \/ \E l \in Lots : Dialog(l) \/ Drop(l)
        \/ \E l \in {<<>>, <<3>>, <<1, 4>>} : Assign(l)
        \/ \E i \in 1..3 : Remove(i)
        \/ Nothing \/ Wipe \/ Clear \/ Validate \/ Over \/ Leave \/ Switch
Spec == Init /\ [][Next]_<<vars, act>>

TypeOK == Len(val) <= 3 /\ note \in {"yes", "no", "?"} /\ off \in BOOLEAN
\* lots that do not fit never become the value
OnlyFitting == [][act'.op \in {"dialog", "drop"} /\ val' # val => ~Refused(val')]_<<vars, act>>
\* removing a file leaves the others in place
OthersStay == [][act'.op = "remove" => Len(val') = Len(val) - 1 /\ \A i \in DOMAIN val' : \E j \in DOMAIN val : val[j] = val'[i]]_<<vars, act>>

Obs == [bound |-> val, shown |-> val, drag |-> IF drag = "?" THEN "*" ELSE drag = "yes",
        messages |-> IF note = "?" \/ seen = "?" THEN "*" ELSE (IF note = "yes" THEN 1 ELSE 0) + (IF seen = "yes" THEN Wrong(val) ELSE 0)]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, val |-> val], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
