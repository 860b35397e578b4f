------------------------------ MODULE Tooltip --------------------------------
(* A tooltip and its trigger. One tick is shorter than every delay but longer *)
(* than half of the time the pointer may take between trigger and contents.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clickable, Contents,   \* BOOLEAN or less: must be clicked open; stays while its contents are hovered
          Devices,               \* "mouse" or "keys": what enters and leaves the trigger
          Places,                \* "slot" (the trigger is inside) or "target" (elsewhere in the page)
          Delays

VARIABLES there,        \* whether the component is there
          disabled,
          ptr,          \* where the pointer (or the keyboard focus) is
          over, inside, \* what the tooltip has noticed of it
          grace,        \* ticks left to get from trigger to contents or back
          clicked,
          vis,          \* "yes", "no", or on its way "up" or "down"; "left" right after removal
          n,            \* ticks since it started on its way
          cfg, act
vars == <<there, disabled, ptr, over, inside, grace, clicked, vis, n, cfg>>
View == vars
C == cfg.contents

Init == /\ there = TRUE /\ disabled \in BOOLEAN /\ ptr = "out" /\ over = FALSE /\ inside = FALSE /\ grace = 0 /\ clicked = FALSE
        /\ vis = "no" /\ n = 0
        /\ cfg \in {c \in [clickable : Clickable, contents : Contents, device : Devices, place : Places, delay : Delays] : TRUE}
        /\ act = [op |-> "init"]

----------------------------------------------------------------------------
AskOf(o, i, g, c) == (o \/ (C /\ (i \/ g > 0))) /\ (cfg.clickable => c)
Ask == AskOf(over, inside, grace, clicked)
Wanted == there /\ ~disabled /\ Ask

\* the tooltip takes notice; asking for nothing any more forgets the contents, being left altogether forgets the click
Notice(o, i, g, c) ==
    LET i2 == IF Ask /\ ~AskOf(o, i, g, c) THEN FALSE ELSE i
        c2 == c /\ (o \/ (C /\ (i2 \/ g > 0))) IN
    /\ over' = o /\ inside' = i2 /\ grace' = g /\ clicked' = c2
Course(d) ==
    LET want == there /\ ~d /\ AskOf(over', inside', grace', clicked') IN
    /\ vis' = (IF vis = "yes" /\ ~want THEN "down" ELSE IF vis = "no" /\ want THEN "up" ELSE vis)
    /\ n' = (IF vis' = vis THEN n ELSE 0)

PanelThere == vis = "yes" \/ (vis = "down" /\ n < 3)
Stays == IF C /\ Ask THEN 2 ELSE grace
Move(to) ==
    /\ to # ptr /\ ptr' = to
    /\ (to = "tip" \/ ptr = "tip") => PanelThere
    /\ there \/ cfg.place = "target"
    /\ IF ~there THEN UNCHANGED <<over, inside, grace, clicked, vis, n>>
       ELSE /\ LET g == IF ptr \in {"trigger", "tip"} THEN Stays ELSE grace IN
               Notice(to = "trigger", C /\ to = "tip", g, clicked)
            /\ Course(disabled)
    /\ act' = [op |-> "move", from |-> ptr, to |-> to]
    /\ UNCHANGED <<there, disabled, cfg>>
Click == /\ ptr = "trigger"
         /\ there \/ cfg.place = "target"
         /\ UNCHANGED <<ptr, there, disabled, cfg>>
         /\ IF there /\ cfg.clickable THEN Notice(over, inside, grace, ~clicked) /\ Course(disabled)
            ELSE UNCHANGED <<over, inside, grace, clicked, vis, n>>
         /\ act' = [op |-> "click"]
\* Escape closes what is shown or about to be, and is left to others otherwise
Escape == /\ UNCHANGED <<ptr, there, disabled, cfg>>
          /\ IF ~Wanted THEN UNCHANGED <<over, inside, grace, clicked, vis, n>>
             ELSE /\ IF cfg.clickable THEN Notice(over, inside, grace, FALSE) ELSE Notice(FALSE, FALSE, 0, clicked)
                  /\ Course(disabled)
          /\ act' = [op |-> "escape", out |-> Wanted]
Disable(d) == /\ there /\ d # disabled /\ disabled' = d /\ UNCHANGED <<ptr, there, over, inside, grace, clicked, cfg>> /\ Course(d)
              /\ act' = [op |-> "disable", to |-> d]
Tick == /\ there /\ n < 3 /\ (grace > 0 \/ vis \in {"up", "down"})
        /\ Notice(over, inside, IF grace > 0 THEN grace - 1 ELSE 0, clicked)
        /\ LET want == ~disabled /\ AskOf(over', inside', grace', clicked') IN
           /\ vis' = (IF vis = "yes" /\ ~want THEN "down" ELSE vis)
           /\ n' = (IF vis' # vis THEN 0 ELSE IF vis \in {"up", "down"} THEN n + 1 ELSE n)
        /\ act' = [op |-> "time", ms |-> 60] /\ UNCHANGED <<ptr, there, disabled, cfg>>
\* every delay passes; what is no longer shown has no contents to be in
Wait == LET want == there /\ ~disabled /\ AskOf(over, inside, 0, clicked) IN
        /\ vis \notin {"yes", "no"} \/ grace > 0
        /\ vis' = (IF want THEN "yes" ELSE "no") /\ n' = 0
        /\ ptr' = (IF ptr = "tip" /\ ~want THEN "out" ELSE ptr)
        /\ over' = over /\ grace' = 0
        /\ inside' = (inside /\ want)
        /\ clicked' = (clicked /\ (over \/ (C /\ inside')))
        /\ act' = [op |-> "time", ms |-> 2000] /\ UNCHANGED <<there, disabled, cfg>>
Remove == /\ there /\ there' = FALSE /\ over' = FALSE /\ inside' = FALSE /\ grace' = 0 /\ clicked' = FALSE
          /\ vis' = (IF vis = "no" THEN "no" ELSE "left") /\ n' = 0
          /\ ptr' = (IF ptr = "tip" \/ cfg.place = "slot" THEN "out" ELSE ptr)
          /\ act' = [op |-> "there", to |-> FALSE] /\ UNCHANGED <<disabled, cfg>>
\* a pointer that is already there when the tooltip comes is not noticed
Return == /\ ~there /\ there' = TRUE /\ vis = "no" /\ ptr = "out"
          /\ act' = [op |-> "there", to |-> TRUE] /\ UNCHANGED <<ptr, disabled, over, inside, grace, clicked, vis, n, cfg>>

Next == \/ \E to \in {"out", "trigger", "tip"} : (cfg.device = "keys" => to # "tip") /\ Move(to)
        \/ Click \/ Escape \/ \E d \in BOOLEAN : Disable(d)
        \/ Tick \/ Wait \/ Remove \/ Return

----------------------------------------------------------------------------
TypeOK == vis \in {"yes", "no", "up", "down", "left"} /\ n \in 0..3 /\ grace \in 0..2
\* once the delays have passed nothing is shown but what is asked for
Settled == (vis = "yes" => Wanted) /\ (vis = "no" => ~Wanted)
\* nobody has to wait for the contents of a tooltip that does not keep them
NoContents == ~C => ~inside /\ grace = 0

Obs == [shown |-> IF vis = "yes" THEN TRUE ELSE IF vis \in {"no", "left"} THEN FALSE ELSE "*",
        listening |-> IF vis = "no" THEN 0 ELSE "*"]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, disabled |-> disabled], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
