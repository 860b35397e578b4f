----------------------------- MODULE Responsive ------------------------------
(* The width and the number of grid columns a component takes in containers   *)
(* of five sizes.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Comps, Values, MaxSet

VARIABLES kind, at, cfg, act
vars == <<kind, at, cfg>>
View == vars
\* kind: "none", "plain" (one value for all sizes) or "sizes";  at: the value given for each size, "" for none
\* cfg.what: the setting that changes, the other one is fixed

Sizes == <<"xs", "sm", "md", "lg", "xl">>
Nothing == [i \in 1..5 |-> ""]
Set(f) == {i \in 1..5 : f[i] # ""}

Init == /\ cfg \in [comp : Comps, what : {"width", "grid"}] /\ kind = "none" /\ at = Nothing /\ act = [op |-> "init"]

Plain(v) == /\ kind' = "plain" /\ at' = [Nothing EXCEPT ![1] = v] /\ <<kind', at'>> # <<kind, at>>
            /\ act' = [op |-> "plain", to |-> v] /\ UNCHANGED cfg
Remove == kind # "none" /\ kind' = "none" /\ at' = Nothing /\ act' = [op |-> "remove"] /\ UNCHANGED cfg
\* how: in the object given before or in a new one
Size(i, v, how) == /\ (how = "same" => kind = "sizes")
                   /\ LET from == IF kind = "sizes" THEN at ELSE Nothing IN
                      /\ v # from[i] /\ at' = [from EXCEPT ![i] = v]
                   /\ Cardinality(Set(at')) <= MaxSet
                   /\ kind' = "sizes" /\ act' = [op |-> "size", size |-> Sizes[i], to |-> v, how |-> how, all |-> at'] /\ UNCHANGED cfg

Next == \/ \E v \in Values : Plain(v)
        \/ Remove
        \/ \E i \in 1..5, v \in Values, how \in {"same", "new"} : Size(i, v, how)

----------------------------------------------------------------------------
Default(w) == IF w = "width" THEN "100%" ELSE "12"
\* the value of the largest size that is not larger than the container
Taken(w, k, f, i) ==
    LET below == {j \in Set(f) : j <= i} IN
    IF k = "plain" THEN (IF f[1] = "" THEN Default(w) ELSE f[1])
    ELSE IF below = {} THEN Default(w) ELSE f[CHOOSE j \in below : \A l \in below : l <= j]

TypeOK == kind # "sizes" => Set(at) \subseteq {1}
\* a larger container takes no value of a smaller one if it has its own
Own == kind = "sizes" => \A i \in Set(at) : Taken(cfg.what, kind, at, i) = at[i]

Obs == [taken |-> [i \in 1..5 |-> Taken(cfg.what, kind, at, i)], other |-> IF cfg.what = "width" THEN "3" ELSE "40%"]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
