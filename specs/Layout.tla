------------------------------- MODULE Layout -------------------------------
(* Bars and drawers of a page layout and the space its content area leaves    *)
(* free for them.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Positions,    \* positions a bar may have; "" for none given
          Heights,      \* heights a bar may have; "" for none given
          Footers,      \* BOOLEAN or {FALSE}: whether there are footers
          Drawers,      \* the drawers there may be
          Sides,        \* sides a drawer may be on
          Sizes,        \* sizes a drawer may have; "" for none given
          OptOut        \* BOOLEAN or {TRUE}: values of the layout setting

VARIABLES header, footer,   \* [on, pos, height, layout]
          drawer,           \* drawer -> [on, side, open, push, size, layout]
          area,             \* whether the content area takes part in the layout
          cfg, act
vars == <<header, footer, drawer, area, cfg>>
View == vars

\* what is not there has no settings
NoBar == [on |-> FALSE, pos |-> "", height |-> "", layout |-> TRUE]
Bars == [on : {TRUE}, pos : Positions, height : Heights, layout : OptOut]
NoDrawer == [on |-> FALSE, side |-> "left", open |-> FALSE, push |-> FALSE, size |-> "", layout |-> TRUE]
Panels == [on : {TRUE}, side : Sides, open : BOOLEAN, push : BOOLEAN, size : Sizes, layout : OptOut]

Init == /\ header = NoBar /\ footer = NoBar /\ drawer = [d \in Drawers |-> NoDrawer] /\ area = TRUE
        /\ cfg = [drawers |-> Drawers] /\ act = [op |-> "init"]

----------------------------------------------------------------------------
Pinned(b) == b.on /\ b.layout /\ b.pos \in {"absolute", "fixed", "sticky"}
Height(b) == IF ~Pinned(b) THEN "" ELSE IF b.height = "" THEN "3rem" ELSE b.height
Size(d) == CASE d.size = "" -> "20%" [] d.size = "md" -> "40%" [] d.size = "90" -> "90px" [] OTHER -> d.size
Taking(s) == {d \in Drawers : drawer[d].on /\ drawer[d].layout /\ drawer[d].open /\ drawer[d].push /\ drawer[d].side = s}
\* two drawers taking space on the same side lie on top of each other; which of them counts is open
Room(s) == IF Taking(s) = {} THEN "" ELSE IF Cardinality(Taking(s)) > 1 THEN "*" ELSE Size(drawer[CHOOSE d \in Taking(s) : TRUE])

Area == IF ~area THEN [s \in {"top", "bottom", "left", "right"} |-> <<"", "">>]
        ELSE [top |-> <<Height(header), Room("top")>>, bottom |-> <<Height(footer), Room("bottom")>>,
              left |-> <<"", Room("left")>>, right |-> <<"", Room("right")>>]
\* a drawer at the top or bottom starts next to the bar there, one at a side keeps its content clear of both
Clear(d) == IF ~drawer[d].on THEN "gone" ELSE
            IF ~drawer[d].layout THEN <<"", "", "", "">> ELSE
            CASE drawer[d].side = "top" -> <<Height(header), "", "", "">>
              [] drawer[d].side = "bottom" -> <<"", Height(footer), "", "">>
              [] OTHER -> <<"", "", Height(header), Height(footer)>>

----------------------------------------------------------------------------
\* one setting changes at a time
Differ(a, b, fs) == Cardinality({f \in fs : a[f] # b[f]})
NearBar(a, b) == a.on # b.on \/ Differ(a, b, {"pos", "height", "layout"}) = 1
Header(b) == /\ NearBar(header, b) /\ header' = b /\ act' = [op |-> "header", to |-> b] /\ UNCHANGED <<footer, drawer, area, cfg>>
Footer(b) == /\ NearBar(footer, b) /\ footer' = b /\ act' = [op |-> "footer", to |-> b] /\ UNCHANGED <<header, drawer, area, cfg>>
Near(a, b) == a.on # b.on \/ Differ(a, b, {"side", "open", "push", "size", "layout"}) = 1
Drawer(d, b) == /\ Near(drawer[d], b) /\ drawer' = [drawer EXCEPT ![d] = b]
                /\ act' = [op |-> "drawer", drawer |-> d, to |-> b] /\ UNCHANGED <<header, footer, area, cfg>>
AreaSet(b) == /\ b # area /\ area' = b /\ act' = [op |-> "area", to |-> b] /\ UNCHANGED <<header, footer, drawer, cfg>>
\* another bar of the same kind, elsewhere in the page, takes the place of the one there
SwapHeader(b) == /\ header.on /\ Differ(header, b, {"pos", "height", "layout"}) < 2 /\ header' = b /\ act' = [op |-> "swap", what |-> "header", to |-> b] /\ UNCHANGED <<footer, drawer, area, cfg>>
SwapFooter(b) == /\ footer.on /\ Differ(footer, b, {"pos", "height", "layout"}) < 2 /\ footer' = b /\ act' = [op |-> "swap", what |-> "footer", to |-> b] /\ UNCHANGED <<header, drawer, area, cfg>>
SwapDrawer(d, b) == /\ drawer[d].on /\ b = drawer[d] /\ drawer' = [drawer EXCEPT ![d] = b]
                    /\ act' = [op |-> "swap", what |-> d, to |-> b] /\ UNCHANGED <<header, footer, area, cfg>>
\* two drawers change in the same moment: one opens while the other closes, or they change sides
Trade(d, e) == /\ d # e /\ drawer[d].on /\ drawer[e].on /\ drawer[d].open # drawer[e].open
               /\ drawer' = [drawer EXCEPT ![d].open = ~@, ![e].open = ~@]
               /\ act' = [op |-> "both", to |-> drawer'] /\ UNCHANGED <<header, footer, area, cfg>>
Cross(d, e) == /\ d # e /\ drawer[d].on /\ drawer[e].on /\ drawer[d].side # drawer[e].side
               /\ drawer' = [drawer EXCEPT ![d].side = drawer[e].side, ![e].side = drawer[d].side]
               /\ act' = [op |-> "both", to |-> drawer'] /\ UNCHANGED <<header, footer, area, cfg>>

Next == \/ \E b \in Bars \cup {NoBar} : Header(b) \/ (TRUE \in Footers /\ Footer(b))
        \/ \E b \in Bars : SwapHeader(b) \/ SwapFooter(b)
        \/ \E d \in Drawers : \/ \E b \in Panels \cup {NoDrawer} : Drawer(d, b) \/ SwapDrawer(d, b)
                              \/ \E e \in Drawers : Trade(d, e) \/ Cross(d, e)
        \/ \E b \in BOOLEAN : AreaSet(b)

----------------------------------------------------------------------------
TypeOK == header \in Bars \cup {NoBar} /\ footer \in Bars \cup {NoBar} /\ \A d \in Drawers : drawer[d] \in Panels \cup {NoDrawer}
\* an empty layout reserves nothing
NothingForNothing == ~header.on /\ ~footer.on /\ (\A d \in Drawers : ~drawer[d].on) => \A s \in DOMAIN Area : Area[s] = <<"", "">>
\* a drawer that is not open leaves the content area alone
ClosedTakesNothing == (\A d \in Drawers : ~drawer[d].open) => \A s \in DOMAIN Area : Area[s][2] = ""

Obs == [area |-> Area, inner |-> [s \in {"top", "bottom", "left", "right"} |-> <<"", "">>],
        clear |-> [d \in Drawers |-> Clear(d)]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
