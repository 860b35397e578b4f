------------------------------ MODULE Accordion ------------------------------
(* An accordion with a field in its content and a button in its title: what   *)
(* opens and shuts it, and what is none of its business.                      *)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES open, off, cfg, act
vars == <<open, off, cfg>>
View == vars
\* cfg.bound: the open flag is bound; otherwise only the initial state is given

Init == /\ cfg \in [bound : BOOLEAN, open : BOOLEAN]
        /\ open = cfg.open /\ off = FALSE /\ act = [op |-> "init"]

Told == IF off THEN <<>> ELSE <<~open>>
Header(how) == /\ open' = (IF off THEN open ELSE ~open)
               /\ act' = [op |-> "header", how |-> how, out |-> Told] /\ UNCHANGED <<off, cfg>>
\* keys and clicks inside belong to what they happen on
Inside(where, what) == /\ where = "content" => open
                       /\ act' = [op |-> "inside", where |-> where, what |-> what, out |-> <<"free">>]
                       /\ UNCHANGED vars
Assign(v) == /\ cfg.bound /\ v # open /\ open' = v
             /\ act' = [op |-> "assign", to |-> v, out |-> "*"] /\ UNCHANGED <<off, cfg>>
Disable(v) == v # off /\ off' = v /\ act' = [op |-> "off", to |-> v, out |-> <<>>] /\ UNCHANGED <<open, cfg>>

Next == \/ \E h \in {"click", "Enter", "Space", "call"} : Header(h)
        \/ \E w \in {"content", "title"}, k \in {"Enter", "Space", "Tab"} : Inside(w, k)
        \/ Inside("content", "click")
        \/ \E v \in BOOLEAN : Assign(v) \/ Disable(v)

----------------------------------------------------------------------------
TypeOK == open \in BOOLEAN /\ off \in BOOLEAN
\* a disabled accordion moves only when the page says so
Disabled == [][off /\ open' # open => act'.op = "assign"]_<<vars, act>>

Obs == [open |-> open, panel |-> open, bound |-> IF cfg.bound THEN open ELSE "*", stop |-> ~off]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
