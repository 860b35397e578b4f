------------------------------ MODULE Placement ------------------------------
(* Where a floating panel is put beside its target. Lengths are pixels.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sides, Aligns, Margins, Follow, Scrolls

VARIABLES at,           \* where the target is in the window
          big, tall,    \* size of the panel and of the window
          scroll,       \* how far the page is scrolled
          shown, rest,  \* whether the page has come to rest since it last moved
          cfg, act
vars == <<at, big, tall, scroll, shown, rest, cfg>>
View == vars

Spots == {<<0, 0>>, <<200, 220>>, <<480, 440>>, <<0, 440>>, <<480, 0>>}
Tw == 80  Th == 40
W == 600
H == IF tall THEN 900 ELSE 500
Pw == IF big THEN 240 ELSE 100
Ph == IF big THEN 300 ELSE 60

Init == /\ at \in Spots /\ big = FALSE /\ tall = FALSE /\ scroll = 0 /\ shown = FALSE /\ rest = TRUE
        /\ cfg \in [side : Sides, align : Aligns, margin : Margins, follow : Follow] /\ act = [op |-> "init"]

Left == at[1]   Top == at[2]   Right == Left + Tw   Bottom == Top + Th
\* the other side is taken when the panel does not fit and there is more room over there
Side == CASE cfg.side = "bottom" /\ Bottom + Ph > H /\ H - Bottom < Top -> "top"
          [] cfg.side = "top" /\ Top - Ph < 0 /\ H - Bottom > Top -> "bottom"
          [] cfg.side = "left" /\ Left - Pw < 0 /\ W - Right > Left -> "right"
          [] cfg.side = "right" /\ Right + Pw > W /\ W - Right < Left -> "left"
          [] OTHER -> cfg.side
Along(lo, hi, len) == CASE cfg.align = "start" -> lo [] cfg.align = "end" -> hi - len [] OTHER -> (lo + hi - len) \div 2
X == CASE Side = "right" -> Right + cfg.margin [] Side = "left" -> Left - Pw - cfg.margin [] OTHER -> Along(Left, Right, Pw)
Y == CASE Side = "top" -> Top - Ph - cfg.margin [] Side = "bottom" -> Bottom + cfg.margin
       [] Side = "middle" -> (Top + Bottom - Ph) \div 2 [] OTHER -> Along(Top, Bottom, Ph)

\* the page moves; an open panel hears of it by the given event
Moved == rest' = (rest /\ ~shown)
Scroll(p) == /\ p # at /\ at' = p /\ Moved /\ act' = [op |-> "scroll", to |-> p] /\ UNCHANGED <<big, tall, scroll, shown, cfg>>
PageScroll(n) == /\ n # scroll /\ scroll' = n /\ Moved /\ act' = [op |-> "page", to |-> n] /\ UNCHANGED <<at, big, tall, shown, cfg>>
Resize == /\ tall' = ~tall /\ Moved /\ act' = [op |-> "resize", to |-> tall'] /\ UNCHANGED <<at, big, scroll, shown, cfg>>
Grow == /\ big' = ~big /\ Moved /\ act' = [op |-> "grow", to |-> big'] /\ UNCHANGED <<at, tall, scroll, shown, cfg>>
Tick == /\ ~rest /\ act' = [op |-> "time", ms |-> 10] /\ UNCHANGED vars
Wait == /\ ~rest /\ rest' = TRUE /\ act' = [op |-> "time", ms |-> 100] /\ UNCHANGED <<at, big, tall, scroll, shown, cfg>>
\* closing and opening does not wait for the page to come to rest; another side may be asked for in between
Show(b) == /\ b # shown /\ shown' = b /\ act' = [op |-> "show", to |-> b] /\ UNCHANGED <<at, big, tall, scroll, rest, cfg>>

Ask(d) == /\ ~shown /\ d # cfg.side /\ cfg' = [cfg EXCEPT !.side = d] /\ act' = [op |-> "ask", to |-> d]
          /\ UNCHANGED <<at, big, tall, scroll, shown, rest>>

Next == \/ \E p \in Spots : Scroll(p)
        \/ \E n \in Scrolls : PageScroll(n)
        \/ Resize \/ Grow \/ Tick \/ Wait \/ (\E d \in Sides : Ask(d)) \/ \E b \in BOOLEAN : Show(b)

----------------------------------------------------------------------------
TypeOK == at \in Spots
\* a panel that fits where it was asked for is put there
Asked == (cfg.side = "bottom" /\ Bottom + Ph <= H) \/ (cfg.side = "top" /\ Top >= Ph)
         \/ (cfg.side = "left" /\ Left >= Pw) \/ (cfg.side = "right" /\ Right + Pw <= W) \/ cfg.side = "middle" => Side = cfg.side
\* it never covers its target unless it is meant to
Beside == Side # "middle" => (X + Pw <= Left \/ X >= Right \/ Y + Ph <= Top \/ Y >= Bottom)

Place == [side |-> Side, x |-> X + scroll, y |-> Y + scroll, width |-> IF cfg.follow THEN Tw ELSE 0]
Obs == [place |-> IF ~shown THEN "hidden" ELSE IF ~rest THEN "*" ELSE Place]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [cfg |-> cfg, at |-> at], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
