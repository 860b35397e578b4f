------------------------------- MODULE Schemes -------------------------------
(* Which colour scheme each of two components takes.                          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Comps,        \* the component under test and another one
          Colors

VARIABLES own, glob, def, cfg, act      \* "-": not set; own may also be "none"
vars == <<own, glob, def, cfg>>
View == vars

ButtonInput == <<"VsButton", "VsInput">>
Some == Colors \cup {"-"}
Init == /\ cfg \in [comps : {Comps}]
        /\ own \in [DOMAIN Comps -> {"-"}] /\ glob = [i \in DOMAIN Comps |-> "-"] /\ def \in Some
        /\ act = [op |-> "init"]

Own(i, v) == /\ v # own[i] /\ own' = [own EXCEPT ![i] = v]
             /\ act' = [op |-> "own", who |-> i, to |-> v] /\ UNCHANGED <<glob, def, cfg>>
Glob(i, v) == /\ v # glob[i] /\ glob' = [glob EXCEPT ![i] = v]
              /\ act' = [op |-> "glob", all |-> glob', def |-> def] /\ UNCHANGED <<own, def, cfg>>
Def(v) == /\ v # def /\ def' = v
          /\ act' = [op |-> "glob", all |-> glob, def |-> v] /\ UNCHANGED <<own, glob, cfg>>
\* everything at once
Reset == /\ glob' = [i \in DOMAIN Comps |-> "-"] /\ def' = "-"
         /\ act' = [op |-> "glob", all |-> glob', def |-> "-"] /\ UNCHANGED <<own, cfg>>

Next == \/ \E i \in DOMAIN Comps, v \in Some \cup {"none"} : Own(i, v)
        \/ \E i \in DOMAIN Comps, v \in Some : Glob(i, v)
        \/ \E v \in Some : Def(v)
        \/ Reset

----------------------------------------------------------------------------
Scheme(i) == IF own[i] = "none" THEN "default" ELSE IF own[i] # "-" THEN own[i]
             ELSE IF glob[i] # "-" THEN glob[i] ELSE IF def # "-" THEN def ELSE "default"
TypeOK == def \in Some
\* a component's own setting only concerns itself
OwnIsLocal == [][act'.op = "own" => \A i \in DOMAIN Comps : i # act'.who => Scheme(i)' = Scheme(i)]_<<vars, act>>

Obs == [schemes |-> [i \in DOMAIN Comps |-> Scheme(i)]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [comps |-> Comps, def |-> def], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
