-------------------------------- MODULE Bound --------------------------------
(* A modal or drawer whose open state is bound to a flag of the page.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Guards, EscOpts, DimOpts, MaxPend

VARIABLES there, flag, open,
          pend,         \* undecided close requests: [src, live]
          calm,         \* whether animations have ended
          cfg, act
vars == <<there, flag, open, pend, calm, cfg>>
View == vars

Cfgs == {c \in [kind : Kinds, guard : Guards, esc : EscOpts, dim : DimOpts, named : BOOLEAN] : c.kind = "drawer" => c.guard = "none"}
Init == /\ there = TRUE /\ flag \in BOOLEAN /\ open = flag /\ pend = <<>> /\ calm = FALSE
        /\ cfg \in Cfgs /\ act = [op |-> "init"]

Dead(p) == [k \in DOMAIN p |-> [p[k] EXCEPT !.live = FALSE]]
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
\* events seen by the page, and how often the guard was asked
Out(events, asked) == [events |-> events, asked |-> asked]

Quiet(a) == UNCHANGED <<open, flag, pend>> /\ act' = a @@ [out |-> Out(<<>>, 0)]
\* a request to close; the flag asks for it when it is the flag that was taken down
Request(src, a) ==
    CASE ~open -> Quiet(a)
      [] open /\ cfg.guard \in {"none", "yes"} ->
            /\ open' = FALSE /\ flag' = FALSE /\ pend' = Dead(pend)
            /\ act' = a @@ [out |-> Out(<<"close">>, IF cfg.guard = "yes" THEN 1 ELSE 0)]
      [] open /\ cfg.guard = "no" ->
            /\ UNCHANGED <<open, pend>> /\ flag' = (IF src = "flag" THEN TRUE ELSE flag)
            /\ act' = a @@ [out |-> Out(<<>>, 1)]
      [] OTHER ->
            /\ Len(pend) < MaxPend /\ pend' = Append(pend, [src |-> src, live |-> TRUE]) /\ UNCHANGED open
            /\ flag' = (IF src = "flag" THEN FALSE ELSE flag)
            /\ act' = a @@ [out |-> Out(<<>>, 1)]

Flag(f) == /\ there /\ f # flag /\ calm' = FALSE /\ UNCHANGED <<there, cfg>>
           /\ IF ~f THEN Request("flag", [op |-> "flag", to |-> f])
              ELSE /\ flag' = TRUE /\ open' = TRUE /\ UNCHANGED pend
                   /\ act' = [op |-> "flag", to |-> f, out |-> Out(IF open THEN <<>> ELSE <<"open">>, 0)]
\* down and up again, or up and down, before anything notices
Blink == /\ there /\ flag = open /\ Quiet([op |-> "blink"]) /\ UNCHANGED <<there, calm, cfg>>
Escape == /\ there /\ calm' = FALSE /\ UNCHANGED <<there, cfg>>
          /\ IF cfg.esc THEN Request("esc", [op |-> "escape"]) ELSE Quiet([op |-> "escape"])
Backdrop == /\ there /\ open /\ calm' = FALSE /\ UNCHANGED <<there, cfg>>
            /\ IF cfg.dim THEN Request("dim", [op |-> "backdrop"]) ELSE Quiet([op |-> "backdrop"])
\* the service closes modals; a drawer is closed and opened by its own methods
Service == /\ there /\ calm' = FALSE /\ UNCHANGED <<there, cfg>> /\ Request("service", [op |-> "service"])
OpenIt == /\ there /\ cfg.kind = "drawer" /\ ~open /\ open' = TRUE /\ flag' = TRUE /\ calm' = FALSE
          /\ act' = [op |-> "method", out |-> Out(<<"open">>, 0)] /\ UNCHANGED <<there, pend, cfg>>
Clear == /\ there /\ cfg.kind = "modal" /\ calm' = FALSE /\ UNCHANGED <<there, cfg>>
         /\ IF ~open THEN Quiet([op |-> "clear"])
            ELSE open' = FALSE /\ flag' = FALSE /\ pend' = Dead(pend) /\ act' = [op |-> "clear", out |-> Out(<<"close">>, 0)]
Answer(k, b) == /\ calm' = FALSE /\ UNCHANGED <<there, cfg>>
                /\ LET p == pend[k]  a == [op |-> "answer", k |-> k, b |-> b] IN
                   IF ~p.live THEN pend' = DropAt(pend, k) /\ UNCHANGED <<open, flag>> /\ act' = a @@ [out |-> Out(<<>>, 0)]
                   ELSE IF b THEN open' = FALSE /\ flag' = FALSE /\ pend' = Dead(DropAt(pend, k)) /\ act' = a @@ [out |-> Out(<<"close">>, 0)]
                   ELSE pend' = DropAt(pend, k) /\ flag' = (IF p.src = "flag" THEN TRUE ELSE flag) /\ UNCHANGED open
                        /\ act' = a @@ [out |-> Out(<<>>, 0)]
Wait == /\ ~calm /\ calm' = TRUE /\ act' = [op |-> "wait", out |-> Out(<<>>, 0)] /\ UNCHANGED <<there, flag, open, pend, cfg>>
\* nothing of it is left when it is removed; the flag stays as the page has it
Remove == /\ there /\ there' = FALSE /\ open' = FALSE /\ pend' = Dead(pend) /\ calm' = FALSE
          /\ act' = [op |-> "there", to |-> FALSE, out |-> "*"] /\ UNCHANGED <<flag, cfg>>
Return == /\ ~there /\ there' = TRUE /\ open' = flag /\ calm' = FALSE
          /\ act' = [op |-> "there", to |-> TRUE, out |-> Out(IF flag THEN <<"open">> ELSE <<>>, 0)] /\ UNCHANGED <<flag, pend, cfg>>
\* while it is away only the page changes the flag
Prepare(f) == /\ ~there /\ f # flag /\ flag' = f /\ act' = [op |-> "flag", to |-> f, out |-> Out(<<>>, 0)]
              /\ UNCHANGED <<there, open, pend, calm, cfg>>

Next == \/ \E b \in BOOLEAN : Flag(b) \/ Prepare(b)
        \/ Blink \/ Escape \/ Backdrop \/ Service \/ OpenIt \/ Clear \/ Wait \/ Remove \/ Return
        \/ \E k \in DOMAIN pend, b \in BOOLEAN : Answer(k, b)

----------------------------------------------------------------------------
TypeOK == Len(pend) <= MaxPend
Decided == \A k \in DOMAIN pend : ~pend[k].live
Agree == there /\ Decided => open = flag
\* open and close events match the visible changes
Matching == [][(there /\ there') => act'.out.events = (IF open = open' THEN <<>> ELSE IF open' THEN <<"open">> ELSE <<"close">>)]_<<vars, act>>
GuardAsked == [][(there /\ there' /\ open /\ ~open' /\ cfg.guard \in {"no", "later"}) => act'.op \in {"clear", "answer"}]_<<vars, act>>

Obs == [flag |-> flag, shown |-> IF calm THEN open ELSE "*"]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, flag |-> flag], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
