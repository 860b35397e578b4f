-------------------------------- MODULE Text --------------------------------
(* A text, number or multi-line field and the value bound to it.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Mods

VARIABLES val,          \* the bound value, "?" when two changes met and either may have won
          cfg, act
vars == <<val, cfg>>
View == vars

Words == {"", "ab", "Ab", "AB", "aB"}
Digits == {"", "0", "7", "7.0", "-3", "1e1", "12"}
Written == IF cfg.kind = "number" THEN Digits ELSE Words
\* what a text written by the user becomes
Becomes(t) ==
    IF t = "" THEN ""
    ELSE IF cfg.kind = "number" THEN CASE t = "7.0" -> "7" [] t = "1e1" -> "10" [] OTHER -> t
    ELSE CASE cfg.mod = "upper" -> "AB" [] cfg.mod = "lower" -> "ab"
           [] cfg.mod = "capitalize" -> (IF t \in {"ab", "Ab"} THEN "Ab" ELSE "AB") [] OTHER -> t
\* only values that the field would not transform are assigned
Given == {Becomes(t) : t \in Written}

Cfgs == {c \in [kind : Kinds, mod : Mods] : c.kind = "number" => c.mod = "none"}
Init == cfg \in Cfgs /\ val \in Given /\ act = [op |-> "init"]

\* one change event for each change of the value, and no update to anything else
Out(v) == [changes |-> IF val = "?" THEN "*" ELSE IF v = val THEN <<>> ELSE <<v>>, foreign |-> IF val = "?" THEN "*" ELSE FALSE]
To(v, a) == val' = v /\ act' = a @@ [out |-> Out(v)] /\ UNCHANGED cfg

Type(t) == To(Becomes(t), [op |-> "type", text |-> t])
Twice(t, u) == t # u /\ val' = Becomes(u) /\ UNCHANGED cfg
               /\ act' = [op |-> "twice", text |-> t, then |-> u, out |-> [changes |-> "*", foreign |-> "*"]]
Wipe == cfg.kind # "textarea" /\ val \notin {"", "?"} /\ To("", [op |-> "wipe"])
Clear == To("", [op |-> "clear"])
Assign(v) == v # val /\ val # "?" /\ To(v, [op |-> "assign", v |-> v])
Nothing(n) == val \notin {"", "?"} /\ cfg.kind = "number" /\ To("", [op |-> "nothing", n |-> n])
\* the page assigns a value in the same moment in which the user types
Meet(t, v) == /\ val # "?" /\ Becomes(t) # v /\ Becomes(t) # val /\ v # val /\ val' = "?" /\ UNCHANGED cfg
              /\ act' = [op |-> "meet", text |-> t, v |-> v, out |-> [changes |-> "*", foreign |-> FALSE]]

Next == \/ \E t \in Written : Type(t) \/ (\E u \in Written : Twice(t, u)) \/ (\E v \in Given : Meet(t, v))
        \/ Wipe \/ Clear \/ (\E v \in Given : Assign(v)) \/ \E n \in {"null", "undefined"} : Nothing(n)

----------------------------------------------------------------------------
TypeOK == val \in Given \cup {"?"}
Transformed == val \in {"", "?"} \/ ((cfg.mod = "upper" => val = "AB") /\ (cfg.mod = "lower" => val = "ab"))

Obs == [value |-> IF val = "?" THEN "*" ELSE val, agree |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, val |-> val], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
