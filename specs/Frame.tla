-------------------------------- MODULE Frame --------------------------------
(* What every field shows around its control.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Slots, Names

VARIABLES on, cfg, act
vars == <<on, cfg>>
View == vars
\* on: the settings given;  cfg.slot: whether the page fills the place of the label

Settings == {"label", "noLabel", "required", "disabled", "hidden", "noMessages", "messages"}
Init == /\ cfg \in [kind : Kinds, slot : Slots, name : Names]
        /\ on \in {{}, {"label", "messages"}} /\ act = [op |-> "init"]

Set(s) == /\ on' = IF s \in on THEN on \ {s} ELSE on \cup {s}
          /\ act' = [op |-> "set", what |-> s, to |-> s \in on'] /\ UNCHANGED cfg
Next == \E s \in Settings : Set(s)

----------------------------------------------------------------------------
TypeOK == on \subseteq Settings
HasLabel == "noLabel" \notin on /\ ("label" \in on \/ cfg.slot)
HasMessages == "messages" \in on /\ "noMessages" \notin on
\* hiding the label or the messages takes nothing else away
Apart == [][act'.op = "set" /\ act'.what = "noLabel" => HasMessages' = HasMessages]_<<vars, act>>

Obs == [label |-> IF ~HasLabel THEN "-" ELSE IF cfg.slot THEN "slot" ELSE "text",
        star |-> HasLabel /\ "required" \in on,
        messages |-> IF HasMessages THEN <<"one", "two">> ELSE <<>>,
        hidden |-> "hidden" \in on,
        usable |-> "disabled" \notin on,
        id |-> TRUE, name |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [x |-> cfg, on |-> on], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
