------------------------------ MODULE TextWrap -------------------------------
(* A text with buttons that copy it and open a link.                          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Texts, Links

VARIABLES text, link, left, works, cfg, act
vars == <<text, link, left, works, cfg>>
View == vars
\* left: seconds the copied mark stays;  works: the clipboard accepts texts

Safe == {"https://a.test/x", "http://a.test/"}
Init == /\ cfg = [n |-> 1] /\ text = "one" /\ link = "" /\ left = 0 /\ works = TRUE /\ act = [op |-> "init"]

Text(t) == t # text /\ text' = t /\ act' = [op |-> "text", to |-> t, out |-> <<>>] /\ UNCHANGED <<link, left, works, cfg>>
Link(l) == l # link /\ link' = l /\ act' = [op |-> "link", to |-> l, out |-> <<>>] /\ UNCHANGED <<text, left, works, cfg>>
Works == works' = ~works /\ act' = [op |-> "works", to |-> works', out |-> <<>>] /\ UNCHANGED <<text, link, left, cfg>>
\* copies what is displayed now and says so, or nothing at all
Copy == LET done == works /\ text # "" IN
        /\ left' = IF done THEN 2 ELSE left
        /\ act' = [op |-> "copy", out |-> IF done THEN <<"written " \o text, "copied " \o text>> ELSE <<>>]
        /\ UNCHANGED <<text, link, works, cfg>>
Open == /\ link # ""
        /\ act' = [op |-> "open", out |-> IF link \in Safe THEN <<"opened " \o link>> ELSE <<>>]
        /\ UNCHANGED vars
Second == /\ left' = IF left = 0 THEN 0 ELSE left - 1
          /\ act' = [op |-> "second", out |-> <<>>] /\ UNCHANGED <<text, link, works, cfg>>

Next == \/ \E t \in Texts : Text(t)
        \/ \E l \in Links : Link(l)
        \/ Works \/ Copy \/ Open \/ Second

----------------------------------------------------------------------------
TypeOK == left \in 0..2
\* the mark never outlives two quiet seconds
Marked == [][left' > left => act'.op = "copy"]_<<vars, act>>

Obs == [mark |-> left > 0, button |-> link # ""]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
