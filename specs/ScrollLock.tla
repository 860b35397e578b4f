----------------------------- MODULE ScrollLock ------------------------------
(* Several holders locking the scrolling of shared containers.  Locking and   *)
(* releasing take effect on the styles with the next frame at the latest.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Holders,      \* set of <<holder, container>>
          Styles,       \* names of own styles of a container
          Touch         \* touch devices or not

VARIABLES held, own, dirty, cfg, act
vars == <<held, own, dirty, cfg>>
View == vars

Three == {<<"a", "body">>, <<"b", "body">>, <<"c", "box">>}
Four == {<<"a", "body">>, <<"b", "body">>, <<"c", "body">>, <<"d", "box">>}
Names == {h[1] : h \in Holders}
Boxes == {h[2] : h \in Holders}
BoxOf(n) == (CHOOSE h \in Holders : h[1] = n)[2]
Holding(b) == {n \in held : BoxOf(n) = b}

Init == /\ cfg \in [touch : Touch]
        /\ held = {} /\ dirty = {} /\ own \in [Boxes -> Styles] /\ act = [op |-> "init"]

\* locking twice or releasing what is not held changes nothing
Lock(n) == /\ held' = held \cup {n}
           /\ dirty' = (IF n \in held THEN dirty ELSE dirty \cup {BoxOf(n)})
           /\ act' = [op |-> "lock", who |-> n] /\ UNCHANGED <<own, cfg>>
Unlock(n) == /\ held' = held \ {n}
             /\ dirty' = (IF n \in held THEN dirty \cup {BoxOf(n)} ELSE dirty)
             /\ act' = [op |-> "unlock", who |-> n] /\ UNCHANGED <<own, cfg>>
Frame == /\ dirty' = {} /\ act' = [op |-> "frame"] /\ UNCHANGED <<held, own, cfg>>
\* the container is only styled by its owner while nobody is busy with it
Style(b, s) == /\ Holding(b) = {} /\ b \notin dirty /\ s # own[b]
               /\ own' = [own EXCEPT ![b] = s]
               /\ act' = [op |-> "style", box |-> b, to |-> s] /\ UNCHANGED <<held, dirty, cfg>>

Next == \/ \E n \in Names : Lock(n) \/ Unlock(n)
        \/ Frame
        \/ \E b \in Boxes, s \in Styles : Style(b, s)

----------------------------------------------------------------------------
TypeOK == held \subseteq Names /\ dirty \subseteq Boxes /\ own \in [Boxes -> Styles]
\* a lock never changes what is restored later
OwnKept == [][act'.op # "style" => own' = own]_<<vars, act>>

Look(b) == IF b \in dirty THEN "*" ELSE IF Holding(b) # {} THEN "locked" ELSE own[b]
Obs == [look |-> [b \in Boxes |-> Look(b)], locked |-> [n \in Names |-> n \in held]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [touch |-> cfg.touch, own |-> own, holders |-> Holders], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
