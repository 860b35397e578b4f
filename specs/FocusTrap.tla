------------------------------ MODULE FocusTrap ------------------------------
(* A part of the page that keeps the Tab key inside while it is there.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Elements,     \* sequence of the elements inside, in page order
          States,       \* what may become of an element
          Hosts,        \* "trap" appears and goes away, "drawer" opens and closes
          Autos         \* elements that take focus by themselves when they appear; "" for none

VARIABLES st,           \* state of each element
          on,           \* whether the trap is there (and open)
          host,         \* whether the drawer is there at all
          enabled,
          focus, prev,
          cfg, act
vars == <<st, on, host, enabled, focus, prev, cfg>>
View == vars

E == 1..Len(Elements)
In == {Elements[i] : i \in E}
Outside == {"before", "after"}

Init == /\ st = [e \in In |-> "ok"] /\ on = FALSE /\ host = TRUE /\ enabled \in BOOLEAN /\ focus \in Outside /\ prev = "-"
        /\ cfg \in {c \in [host : Hosts, auto : Autos] : c.host = "trap" \/ c.auto = ""}
        /\ act = [op |-> "init"]

----------------------------------------------------------------------------
\* "skip" elements can be clicked but are left out by Tab
Clickable(e) == st[e] \in {"ok", "skip"}
Usable == SelectSeq(Elements, LAMBDA e : st[e] = "ok")
Index(s, e) == CHOOSE i \in DOMAIN s : s[i] = e
\* usable elements after and before an element of the trap, the start of the trap counting as before them all
Pos(e) == IF e = "start" THEN 0 ELSE Index(Elements, e)
After(e) == SelectSeq(Usable, LAMBDA x : Pos(x) > Pos(e))
Before(e) == SelectSeq(Usable, LAMBDA x : Pos(x) < Pos(e))
Last(s) == s[Len(s)]
\* order of the page around the trap
Natural(back) ==
    IF focus \in Outside
    THEN IF back THEN (IF focus = "after" THEN (IF on /\ Usable # <<>> THEN Last(Usable) ELSE "before") ELSE "stop")
         ELSE (IF focus = "before" THEN (IF on /\ Usable # <<>> THEN Usable[1] ELSE "after") ELSE "stop")
    ELSE IF back THEN (IF Before(focus) = <<>> THEN "before" ELSE Last(Before(focus)))
         ELSE (IF After(focus) = <<>> THEN "after" ELSE After(focus)[1])
Kept(back) == IF focus \in Outside THEN Natural(back)
              ELSE IF back THEN (IF Before(focus) = <<>> THEN Last(Usable) ELSE Last(Before(focus)))
              ELSE (IF After(focus) = <<>> THEN Usable[1] ELSE After(focus)[1])

Tab(back) == LET to == IF on /\ enabled THEN Kept(back) ELSE Natural(back) IN
             /\ focus \in Outside \/ Usable # <<>>     \* without a usable element nothing is promised
             /\ to # "stop" /\ focus' = to
             /\ act' = [op |-> "tab", back |-> back] /\ UNCHANGED <<st, on, host, enabled, prev, cfg>>
\* the element under focus is left as it is
Set(e, s) == /\ on /\ focus # e /\ s # st[e] /\ st' = [st EXCEPT ![e] = s]
             /\ act' = [op |-> "set", el |-> e, to |-> s] /\ UNCHANGED <<on, host, enabled, focus, prev, cfg>>
Click(x) == /\ x # focus /\ (IF x \in Outside THEN TRUE ELSE on /\ Clickable(x)) /\ focus' = x
            /\ act' = [op |-> "focus", el |-> x] /\ UNCHANGED <<st, on, host, enabled, prev, cfg>>
Appear == /\ ~on /\ host /\ on' = TRUE /\ prev' = focus
          /\ focus' = (IF cfg.auto # "" /\ Clickable(cfg.auto) THEN cfg.auto ELSE "start")
          /\ act' = [op |-> "appear"] /\ UNCHANGED <<st, host, enabled, cfg>>
Leave == /\ on /\ on' = FALSE /\ focus' = prev /\ prev' = "-"
         /\ act' = [op |-> "leave"] /\ UNCHANGED <<st, host, enabled, cfg>>
Enable(b) == /\ b # enabled /\ enabled' = b /\ act' = [op |-> "enable", to |-> b] /\ UNCHANGED <<st, on, host, focus, prev, cfg>>
\* the drawer itself comes and goes; while it is closed that changes nothing else
Remove == /\ cfg.host = "drawer" /\ host /\ host' = FALSE /\ on' = FALSE
          /\ focus' = (IF on THEN prev ELSE focus) /\ prev' = "-"
          /\ act' = [op |-> "host", to |-> FALSE] /\ UNCHANGED <<st, enabled, cfg>>
Return == /\ ~host /\ host' = TRUE /\ act' = [op |-> "host", to |-> TRUE] /\ UNCHANGED <<st, on, enabled, focus, prev, cfg>>

Next == \/ \E b \in BOOLEAN : Tab(b) \/ Enable(b)
        \/ \E e \in In : Click(e) \/ \E s \in States : Set(e, s)
        \/ \E x \in {"before", "after"} : Click(x)
        \/ Appear \/ Leave \/ Remove \/ Return

----------------------------------------------------------------------------
TypeOK == focus \in Outside \cup In \cup {"start"} /\ prev \in Outside \cup {"-"}
\* Tab never leaves an enabled trap
TabStays == [][(act'.op = "tab" /\ on /\ enabled /\ focus \notin Outside) => focus' \in In]_<<vars, act>>
\* nor does it rest where it cannot
TabUsable == [][(act'.op = "tab" /\ focus' \in In) => st[focus'] = "ok"]_<<vars, act>>
GivesBack == [][(on /\ ~on') => focus' = prev]_<<vars, act>>

Obs == [focus |-> focus]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [host |-> cfg.host, auto |-> cfg.auto, els |-> Elements, enabled |-> enabled, focus |-> focus], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))

Two == <<"input", "button">>
Three == <<"link", "input", "button">>
Four == <<"box", "select", "area", "button">>
==============================================================================
