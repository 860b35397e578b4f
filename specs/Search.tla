-------------------------------- MODULE Search ------------------------------
(* A search field: what it matches at once, and when it announces a search.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Texts, Delay      \* Delay: half the time the field waits, in steps of the clock

VARIABLES text,         \* what stands in the field
          bound,        \* the bound text
          sens, rgx,    \* case matters; the text is a pattern
          left,         \* steps until the search is announced, 0 when none is due
          cfg, act
vars == <<text, bound, sens, rgx, left, cfg>>
View == vars

\* candidates: 1 "Apple", 2 "a.b", 3 "axB", 4 "x[x"
Plain(t, s) == CASE t = "A" -> (IF s THEN {1} ELSE {1, 2, 3})
                 [] t = "a.b" -> {2}
                 [] t = "[x" -> {4}
                 [] t = "^a" -> {}
                 [] OTHER -> {1, 2, 3, 4}
Pattern(t, s) == CASE t = "a.b" -> (IF s THEN {2} ELSE {2, 3})
                   [] t = "^a" -> (IF s THEN {2, 3} ELSE {1, 2, 3})
                   [] OTHER -> Plain(t, s)     \* what is no pattern is searched for as it stands
Matches == IF rgx THEN Pattern(text, sens) ELSE Plain(text, sens)

Init == /\ cfg \in [aa : BOOLEAN, re : BOOLEAN] /\ text \in {"", "A"} /\ bound = text /\ sens \in BOOLEAN /\ rgx \in BOOLEAN
        /\ left = 0 /\ act = [op |-> "init"]

Quiet == [searches |-> <<>>]
Start(on) == left' = IF on THEN Delay ELSE left
Type(t) == /\ text' = t /\ Start(t # text) /\ act' = [op |-> "type", t |-> t, out |-> Quiet] /\ UNCHANGED <<bound, sens, rgx, cfg>>
Clear == /\ text' = "" /\ Start(text # "") /\ act' = [op |-> "clear", out |-> Quiet] /\ UNCHANGED <<bound, sens, rgx, cfg>>
Assign(t) == /\ t # bound /\ text' = t /\ bound' = t /\ Start(t # text) /\ act' = [op |-> "assign", t |-> t, out |-> Quiet]
             /\ UNCHANGED <<sens, rgx, cfg>>
\* by the button, where there is one, or by the page
Case(by) == /\ (by = "user" => cfg.aa) /\ sens' = ~sens /\ Start(TRUE) /\ act' = [op |-> "case", by |-> by, out |-> Quiet]
            /\ UNCHANGED <<text, bound, rgx, cfg>>
Regex(by) == /\ (by = "user" => cfg.re) /\ rgx' = ~rgx /\ Start(TRUE) /\ act' = [op |-> "regex", by |-> by, out |-> Quiet]
             /\ UNCHANGED <<text, bound, sens, cfg>>
Wait == /\ left' = IF left = 0 THEN 0 ELSE left - 1
        /\ bound' = IF left = 1 THEN text ELSE bound
        /\ act' = [op |-> "wait", out |-> [searches |-> IF left = 1 THEN <<text>> ELSE <<>>]]
        /\ UNCHANGED <<text, sens, rgx, cfg>>

Next == \/ \E t \in Texts : Type(t) \/ Assign(t)
        \/ Clear \/ Wait
        \/ \E by \in {"user", "page"} : Case(by) \/ Regex(by)
Spec == Init /\ [][Next]_<<vars, act>>

TypeOK == text \in Texts /\ bound \in Texts /\ left \in 0..Delay
\* the page knows what stands in the field unless an announcement is due
Told == text # bound => left > 0
\* each announcement says what stands in the field
Truth == [][act'.op = "wait" => \A i \in DOMAIN act'.out.searches : act'.out.searches[i] = text]_<<vars, act>>

Lit(on, flag) == IF ~on THEN "none" ELSE IF flag THEN "on" ELSE "off"
Obs == [buttons |-> <<Lit(cfg.aa, sens), Lit(cfg.re, rgx)>>, text |-> text, bound |-> bound, sens |-> sens, rgx |-> rgx, matches |-> [i \in 1..4 |-> i \in Matches]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, text |-> text, sens |-> sens, rgx |-> rgx], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
