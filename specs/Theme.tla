-------------------------------- MODULE Theme --------------------------------
(* The colour theme of a page over start-ups, assignments and toggles.        *)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES saved, theme, cfg, act     \* saved "-": the user never chose
vars == <<saved, theme, cfg>>
View == vars

Themes == {"light", "dark"}
Other(t) == IF t = "light" THEN "dark" ELSE "light"
\* a default of "-": none given
Start(s, sys, def) == IF s # "-" THEN s ELSE IF sys = "dark" \/ def = "dark" THEN "dark" ELSE "light"

\* "off": the page is not started yet
Init == /\ cfg = [n |-> 1] /\ saved \in Themes \cup {"-"} /\ theme = "off" /\ act = [op |-> "init"]

Boot(sys, def) == /\ theme' = Start(saved, sys, def)
                  /\ act' = [op |-> "boot", sys |-> sys, def |-> def] /\ UNCHANGED <<saved, cfg>>
Assign(t) == /\ theme # "off" /\ theme' = t /\ act' = [op |-> "assign", to |-> t] /\ UNCHANGED <<saved, cfg>>
Toggle(how) == /\ theme # "off" /\ theme' = Other(theme) /\ saved' = theme'
               /\ act' = [op |-> "toggle", how |-> how] /\ UNCHANGED cfg
\* the user clears the storage of the site
Forget == /\ theme # "off" /\ saved' = "-" /\ act' = [op |-> "forget"] /\ UNCHANGED <<theme, cfg>>

Next == \/ \E sys \in Themes, def \in Themes \cup {"-"} : Boot(sys, def)
        \/ \E t \in Themes : Assign(t)
        \/ \E h \in {"call", "button"} : Toggle(h)
        \/ Forget

----------------------------------------------------------------------------
TypeOK == theme \in Themes \cup {"off"} /\ saved \in Themes \cup {"-"}
Remembered == [][act'.op = "boot" /\ saved # "-" => theme' = saved]_<<vars, act>>
Flips == [][act'.op = "toggle" => theme' # theme /\ saved' = theme']_<<vars, act>>

Obs == IF theme = "off" THEN [theme |-> "*", marker |-> "*", shown |-> "*", saved |-> saved]
       ELSE [theme |-> theme, marker |-> theme, shown |-> theme, saved |-> saved]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [saved |-> saved], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
