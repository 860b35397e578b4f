------------------------------- MODULE Shadow -------------------------------
(* The scroll shadow directive on an element that is rendered again and again:*)
(* it adds a class and a container type and takes exactly these back.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Owns          \* container types the element may have of its own

VARIABLES there,        \* the element is mounted
          val,          \* value of the directive: "none", "yes", "no"
          scrolls,      \* how the element scrolls: "no", "x", "y", "auto", "fits"
          class,        \* another class of the element is present
          active,       \* "yes", "no" or "?"
          cfg, act
vars == <<there, val, scrolls, class, active, cfg>>
View == vars

Vals == {"none", "yes", "no"}
Ways == {"no", "x", "y", "auto", "fits"}
On(v) == v # "no"
Can(s) == s \in {"x", "y", "auto"}
B(x) == IF x THEN "yes" ELSE "no"

Init == /\ cfg \in Owns /\ there = TRUE /\ val \in Vals /\ scrolls \in Ways /\ class = FALSE
        /\ active = B(On(val) /\ Can(scrolls)) /\ act = [op |-> "init"]
Do(a) == act' = a /\ UNCHANGED cfg
\* switching on counts at the time it happens; what a new value means for an element that was on but could not scroll is left open
Value(v) == /\ v # val /\ val' = v
            /\ active' = CASE ~On(v) -> "no"
                           [] On(v) /\ ~On(val) -> B(Can(scrolls))
                           [] OTHER -> IF active = "no" /\ Can(scrolls) THEN "?" ELSE active
            /\ Do([op |-> "value", v |-> v]) /\ UNCHANGED <<scrolls, class, there>>
Scrolls(s) == s # scrolls /\ scrolls' = s /\ Do([op |-> "scrolls", s |-> s]) /\ UNCHANGED <<val, class, active, there>>
Class == class' = ~class /\ Do([op |-> "class"]) /\ UNCHANGED <<val, scrolls, active, there>>
Render == Do([op |-> "render"]) /\ UNCHANGED <<val, scrolls, class, active, there>>
Unmount == there' = FALSE /\ active' = "no" /\ Do([op |-> "unmount"]) /\ UNCHANGED <<val, scrolls, class>>
Mount == there' = TRUE /\ active' = B(On(val) /\ Can(scrolls)) /\ Do([op |-> "mount"]) /\ UNCHANGED <<val, scrolls, class>>
Next == IF there THEN (\E v \in Vals : Value(v)) \/ (\E s \in Ways : Scrolls(s)) \/ Class \/ Render \/ Unmount
        ELSE Mount
Spec == Init /\ [][Next]_<<vars, act>>

TypeOK == val \in Vals /\ scrolls \in Ways
OffIsOff == ~On(val) => active = "no"
\* rendering again changes nothing
Steady == [][act'.op \in {"render", "class"} => active' = active]_<<vars, act>>

Type == CASE active = "?" -> "*" [] active = "no" -> cfg
          [] OTHER -> IF cfg = "" THEN "scroll-state" ELSE IF cfg = "scroll-state" THEN cfg ELSE cfg \o " scroll-state"
Obs == [shadow |-> IF active = "?" THEN "*" ELSE active, type |-> Type, other |-> B(class)]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [own |-> cfg, val |-> val, scrolls |-> scrolls], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
