-------------------------------- MODULE Image -------------------------------
(* A picture with a fallback: what is loaded, and what is shown of it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES src, fb,      \* the picture and the fallback asked for
          stage,        \* which of them is in use: "src", "fb"
          st,           \* "idle" (not yet in view), "loading", "ok", "failed"
          first,        \* nothing has been loaded or has failed so far
          cfg, act
vars == <<src, fb, stage, st, first, cfg>>
View == vars
Pictures == {"a.png", "b.png"}
Fallbacks == {"", "f.png"}

Init == /\ cfg \in [lazy : BOOLEAN, bare : BOOLEAN] /\ src \in Pictures /\ fb \in Fallbacks /\ stage = "src" /\ first = TRUE
        /\ st = (IF cfg.lazy THEN "idle" ELSE "loading") /\ act = [op |-> "init"]

Do(a, n) == act' = a @@ [out |-> [errors |-> n]] /\ UNCHANGED cfg
Enter == st = "idle" /\ st' = "loading" /\ Do([op |-> "enter"], 0) /\ UNCHANGED <<src, fb, stage, first>>
\* the browser complains about a picture without an address
Blank == st = "idle" /\ Do([op |-> "blank"], 0) /\ UNCHANGED <<src, fb, stage, st, first>>
Load == st = "loading" /\ st' = "ok" /\ first' = FALSE /\ Do([op |-> "load"], 0) /\ UNCHANGED <<src, fb, stage>>
Fail == /\ st = "loading" /\ first' = FALSE /\ Do([op |-> "fail"], 1) /\ UNCHANGED <<src, fb>>
        /\ IF stage = "src" /\ fb # "" THEN stage' = "fb" /\ st' = "loading" ELSE stage' = stage /\ st' = "failed"
SetSrc(x) == /\ x # src /\ src' = x /\ stage' = "src" /\ st' = (IF st = "idle" THEN "idle" ELSE "loading")
             /\ Do([op |-> "src", x |-> x], 0) /\ UNCHANGED <<fb, first>>
\* another fallback: the picture gets another chance, unless it is known to have failed
SetFb(x) == /\ x # fb /\ fb' = x /\ Do([op |-> "fallback", x |-> x], 0) /\ UNCHANGED <<src, first>>
            /\ IF stage = "fb" THEN stage' = "src" /\ st' = "loading"
               ELSE IF st = "failed" THEN stage' = "fb" /\ st' = "loading"
               ELSE UNCHANGED <<stage, st>>
Next == Enter \/ Blank \/ Load \/ Fail \/ (\E x \in Pictures : SetSrc(x)) \/ (\E x \in Fallbacks : SetFb(x))
Spec == Init /\ [][Next]_<<vars, act>>

TypeOK == src \in Pictures /\ fb \in Fallbacks /\ stage \in {"src", "fb"}
NoEmptyFallback == stage = "fb" => fb # ""
\* giving up means that everything there is has failed
AllTried == st = "failed" => (stage = "fb" \/ fb = "")

Known == st \in {"ok", "failed"} \/ first
Obs == [url |-> IF st = "idle" THEN "" ELSE IF stage = "fb" THEN fb ELSE src,
        picture |-> IF Known THEN st = "ok" ELSE "*",
        icon |-> st = "failed",
        skeleton |-> IF Known THEN ~cfg.bare /\ first ELSE "*",
        watching |-> IF st = "idle" THEN 1 ELSE 0]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, src |-> src, fb |-> fb], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
