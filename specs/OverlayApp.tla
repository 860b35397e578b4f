----------------------------- MODULE OverlayApp ------------------------------
(* Overlays are rendered by an application of their own; what the page's      *)
(* application offers, at any time, is offered to them too.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values

VARIABLES installed, part, mark, given, plain, fixed, own, handler, cfg, act
vars == <<installed, part, mark, given, plain, fixed, own, handler, cfg>>
View == vars
\* part, mark: a component and a directive of the application;  given: what it provides
\* plain, fixed: global properties, one assigned and one defined by a getter (as routers do)
\* own: the plain property as assigned inside an overlay;  handler: the error handler

None == "-"
Init == /\ cfg = [n |-> 1] /\ installed = FALSE /\ part = None /\ mark = None /\ given = None
        /\ plain = None /\ fixed = None /\ own = None /\ handler = None /\ act = [op |-> "init"]

Install == installed' = TRUE /\ act' = [op |-> "install"] /\ UNCHANGED <<part, mark, given, plain, fixed, own, handler, cfg>>
\* a second application on the page is not served
Second == installed /\ act' = [op |-> "second"] /\ UNCHANGED vars
Part == part = None /\ part' = "1" /\ act' = [op |-> "part", to |-> "1"] /\ UNCHANGED <<installed, mark, given, plain, fixed, own, handler, cfg>>
Mark == mark = None /\ mark' = "1" /\ act' = [op |-> "mark", to |-> "1"] /\ UNCHANGED <<installed, part, given, plain, fixed, own, handler, cfg>>
Give(v) == v # given /\ given' = v /\ act' = [op |-> "give", to |-> v] /\ UNCHANGED <<installed, part, mark, plain, fixed, own, handler, cfg>>
Plain(v) == v # plain /\ plain' = v /\ act' = [op |-> "plain", to |-> v] /\ UNCHANGED <<installed, part, mark, given, fixed, own, handler, cfg>>
Fixed(v) == v # fixed /\ fixed' = v /\ act' = [op |-> "fixed", to |-> v] /\ UNCHANGED <<installed, part, mark, given, plain, own, handler, cfg>>
Handle(v) == v # handler /\ handler' = v /\ act' = [op |-> "handle", to |-> v] /\ UNCHANGED <<installed, part, mark, given, plain, fixed, own, cfg>>
Own(v) == installed /\ v # own /\ own' = v /\ act' = [op |-> "own", to |-> v] /\ UNCHANGED <<installed, part, mark, given, plain, fixed, handler, cfg>>

Or(a, b) == IF a # None THEN a ELSE b
\* a view is opened, looks around and is closed
Look == /\ installed
        /\ act' = [op |-> "look",
                   out |-> [part |-> part, mark |-> mark, given |-> given, plain |-> Or(own, plain), fixed |-> fixed,
                            named |-> [plain |-> Or(own, plain) # None, fixed |-> fixed # None]]]
        /\ UNCHANGED vars
\* a view fails
Fail == installed /\ handler # None /\ act' = [op |-> "fail", out |-> handler] /\ UNCHANGED vars

Next == Install \/ Second \/ Part \/ Mark \/ Look \/ Fail
        \/ \E v \in Values : Give(v) \/ Plain(v) \/ Fixed(v) \/ Handle(v) \/ Own("own " \o v)

----------------------------------------------------------------------------
TypeOK == installed \in BOOLEAN
\* overlays keep their own assignments to themselves
Apart == [][act'.op = "own" => plain' = plain]_<<vars, act>>

Obs == [apps |-> IF installed THEN 1 ELSE 0, plain |-> plain]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
