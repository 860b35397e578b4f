------------------------------- MODULE Options -------------------------------
(* Settings of the whole application, given when it is created or assigned    *)
(* later, and what a component and the page make of them.                     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Ratios        \* radius ratios in tenths; 100 for none given, 101 for one below zero

VARIABLES on,           \* whether the application runs
          scheme,       \* colour scheme of buttons
          preset,       \* "-" or which value the preset "mine" has
          ratio,        \* radius ratio in force, in tenths; 100: that of the page itself
          cfg, act
vars == <<on, scheme, preset, ratio, cfg>>
View == vars

Schemes == {"-", "red", "blue"}
Presets == {"-", "10px", "20px"}
Raw(r) == IF r = 101 THEN 0 - 5 ELSE r
Clamp(r) == IF r = 100 THEN 100 ELSE IF r = 101 THEN 0 ELSE IF r > 10 THEN 10 ELSE r

\* own: ratio the style sheets of the page set, in tenths
Init == /\ cfg \in [own : {10, 7}] /\ on = FALSE /\ scheme = "-" /\ preset = "-" /\ ratio = 100 /\ act = [op |-> "init"]

\* settings that are not given take their default, whatever they were before
Boot(s, p, r) == /\ on' = TRUE /\ scheme' = s /\ preset' = p /\ ratio' = Clamp(r)
                 /\ act' = [op |-> "boot", scheme |-> s, preset |-> p, ratio |-> Raw(r)] /\ UNCHANGED cfg
Scheme(s) == /\ on /\ s # scheme /\ scheme' = s /\ act' = [op |-> "scheme", to |-> s] /\ UNCHANGED <<on, preset, ratio, cfg>>
Preset(p) == /\ on /\ p # preset /\ preset' = p /\ act' = [op |-> "preset", to |-> p] /\ UNCHANGED <<on, scheme, ratio, cfg>>
Ratio(r) == /\ on /\ r # 100 /\ ratio' = Clamp(r) /\ act' = [op |-> "ratio", to |-> Raw(r)] /\ UNCHANGED <<on, scheme, preset, cfg>>

Next == \/ \E s \in Schemes, p \in Presets, r \in Ratios :
              /\ \/ s = "-" \/ p = "-" \/ (s = "red" /\ p = "10px")
              /\ Boot(s, p, r)
        \/ \E s \in Schemes : Scheme(s)
        \/ \E p \in Presets : Preset(p)
        \/ \E r \in Ratios : Ratio(r)

----------------------------------------------------------------------------
TypeOK == scheme \in Schemes /\ preset \in Presets /\ (ratio = 100 \/ ratio \in 0..10)
\* one setting never changes another
Apart == [][act'.op \in {"scheme", "preset", "ratio"} =>
              /\ act'.op # "scheme" => scheme' = scheme
              /\ act'.op # "preset" => preset' = preset
              /\ act'.op # "ratio" => ratio' = ratio]_<<vars, act>>

Obs == IF ~on THEN [on |-> FALSE]
       ELSE [on |-> TRUE,
             scheme |-> <<IF scheme = "-" THEN "default" ELSE scheme, IF scheme = "-" THEN "" ELSE scheme>>,
             preset |-> <<IF preset = "-" THEN "" ELSE preset, IF preset = "-" THEN "" ELSE preset>>,
             radius |-> IF ratio = 100 THEN cfg.own ELSE ratio,
             ratio |-> IF ratio = 100 THEN 10 ELSE ratio]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
