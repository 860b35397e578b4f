------------------------------- MODULE Content -------------------------------
(* What a page sees of content given as text, as HTML or as a component.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPieces, Pieces, Msgs

VARIABLES content, msg, cfg, act
vars == <<content, msg, cfg>>
View == vars
\* content: the pieces of a string, or <<"component">>;  msg: the properties for a component

\* a piece: what is written, what is seen of it word by word and tag by tag, and what it is
P(text, seen, kind) == [text |-> text, seen |-> seen, kind |-> kind]
All == [word |-> P("a", <<"a">>, "text"), spaced |-> P(" b ", <<" ", "b", " ">>, "text"), less |-> P("1 < 2 > 0", <<"1 < 2 > 0">>, "text"),
        bold |-> P("<b>x</b>", <<"[b]", "x", "[/b]">>, "element"), named |-> P("<U id=\"u\">w</U>", <<"[u id=u]", "w", "[/u]">>, "element"),
        nested |-> P(" <i>y <s>z</s> </i>", <<" ", "[i]", "y", " ", "[s]", "z", "[/s]", " ", "[/i]">>, "element"), break |-> P("<br>", <<"[br]">>, "element"),
        picture |-> P("<svg><linearGradient></linearGradient></svg>", <<"[svg]", "[linearGradient]", "[/linearGradient]", "[/svg]">>, "element"),
        remark |-> P("<!-- c -->", <<>>, "markup"), stray |-> P("</div>", <<>>, "markup"), entity |-> P("&amp;", <<"&">>, "text")]
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE All[Head(s)].text \o Text(Tail(s))
RECURSIVE Seen(_)
Seen(s) == IF s = <<>> THEN <<>> ELSE All[Head(s)].seen \o Seen(Tail(s))
RECURSIVE Literal(_)
Literal(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = "entity" THEN <<"&amp;">> ELSE All[Head(s)].seen) \o Literal(Tail(s))
\* spaces as a page shows them: one for several, none at the ends
RECURSIVE Page(_, _)
Page(s, after) == IF s = <<>> THEN ""
                  ELSE IF Head(s) # " " THEN Head(s) \o Page(Tail(s), TRUE)
                  ELSE IF after /\ \E i \in 2..Len(s) : s[i] # " " THEN " " \o Page(Tail(s), FALSE) ELSE Page(Tail(s), after)
Has(kind) == \E i \in DOMAIN content : All[content[i]].kind = kind
Component == content = <<"component">>

Init == /\ cfg = [n |-> 1] /\ content = <<>> /\ msg = "-" /\ act = [op |-> "init"]

Give(s) == content' = s /\ act' = [op |-> "give", text |-> Text(s)] /\ UNCHANGED <<msg, cfg>>
Add(p) == ~Component /\ Len(content) < MaxPieces /\ Give(Append(content, p))
Cut == ~Component /\ content # <<>> /\ Give(Tail(content))
Only(p) == Component /\ Give(<<p>>)
GiveComponent == /\ ~Component /\ content' = <<"component">> /\ act' = [op |-> "component"] /\ UNCHANGED <<msg, cfg>>
Say(m) == m # msg /\ msg' = m /\ act' = [op |-> "say", to |-> m] /\ UNCHANGED <<content, cfg>>

Next == (\E p \in Pieces : Add(p) \/ Only(p)) \/ Cut \/ GiveComponent \/ (\E m \in Msgs : Say(m))

----------------------------------------------------------------------------
TypeOK == Component \/ Len(content) <= MaxPieces
\* adding to a string never hides what was seen of its elements
Grows == [][act'.op = "give" /\ ~Component /\ Len(content') = Len(content) + 1 => \E p \in Pieces : Seen(content') = Seen(content) \o All[p].seen]_<<vars, act>>

\* markup without any element is not specified
Shown == IF Component THEN "[p]" \o msg \o "[/p]"
         ELSE IF Has("element") THEN Page(Seen(content), FALSE)
         ELSE IF Has("markup") THEN "*" ELSE Page(Literal(content), FALSE)
\* attributes are on the outermost element
Obs == [shown |-> Shown, marked |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
