------------------------------- MODULE Lookup --------------------------------
(* An agent looks something up: search, follow a result to its reference,     *)
(* read the resources named on the way, scaffold what was found.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Queries, Limits

VARIABLES ver, res, cfg, act
vars == <<ver, res, cfg>>
View == vars
\* ver: the version of the project;  res: the results of the last search as <<kind, id>>

Kinds == <<"component", "directive", "composable", "token", "option", "rule", "changelog">>
All == SubSeq(Kinds, 1, 6)   \* the kinds of a search for everything
Ids(k, v) == CASE k = "component" -> IF v = "2.1.0" THEN <<"VsAlpha", "VsGamma">> ELSE <<"VsAlpha", "VsBeta">>
               [] k = "directive" -> <<"v-one", "v-two">>
               [] k = "composable" -> <<"useOneThing", "useOtherThing">>
               [] k = "token" -> <<"--vs-comp-bg", "--vs-one", "--vs-red-500">>
               [] k = "option" -> <<"components", "colorScheme", "styleSet", "theme", "radiusRatio">>
               [] k = "rule" -> <<"R01", "R02", "R03", "R04", "R05", "PREFER_VLOSSOM_COMPONENT">>
               [] OTHER -> <<"2.11.0-beta.1", "2.10.0", "2.2.0", "2.1.0">>
\* what a query names, in the names and descriptions of the catalogue
Named(q, k) == CASE q = "alpha" -> {"VsAlpha"} [] q = "VsGamma" -> {"VsGamma"} [] q = "vs-beta" -> {"VsBeta"}
                 [] q = "vs-gamma and vs-alpha" -> {"VsAlpha", "VsGamma"}
                 [] q = "vs" -> {"VsAlpha", "VsBeta", "VsGamma", "v-one", "v-two", "--vs-comp-bg", "--vs-one", "--vs-red-500", "colorScheme", "R04"}
                 [] q = "radius" -> {"radiusRatio"} [] q = "Thing" -> {"useOneThing", "useOtherThing"}
                 [] q = "500" -> {"--vs-red-500"} [] q = "two" -> {"v-two"} [] q = "r03" -> {"R03"} [] q = "2.10" -> {"2.10.0"}
                 [] OTHER -> {}
Min(a, b) == IF a < b THEN a ELSE b
Cut(s, n) == SubSeq(s, 1, Min(Len(s), n))
Bound(n) == IF n = 0 THEN 10 ELSE IF n > 50 THEN 50 ELSE n
Found(k, q, n, v) == LET hits == SelectSeq(Ids(k, v), LAMBDA i : q = "" \/ i \in Named(q, k)) IN
                     [i \in 1..Min(Len(hits), n) |-> <<k, hits[i]>>]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Groups(q, n, v) == SelectSeq([i \in 1..6 |-> Found(All[i], q, n, v)], LAMBDA g : g # <<>>)

Init == /\ cfg = [n |-> 1] /\ ver \in {"2.1.0", "2.2.0"} /\ res = <<>> /\ act = [op |-> "init"]

Search(k, q, n) ==
    /\ res' = Found(k, q, Bound(n), ver)
    /\ act' = [op |-> "search", kind |-> k, query |-> q, limit |-> n,
               out |-> [status |-> IF res' = <<>> THEN "empty" ELSE "ok", results |-> res', choices |-> <<>>, uris |-> "served"]]
    /\ UNCHANGED <<ver, cfg>>
\* several kinds at once are a question back
SearchAll(q, n) ==
    LET gs == Groups(q, Bound(n), ver)
        many == q # "" /\ Len(gs) > 1 IN
    /\ res' = IF many THEN <<>> ELSE Cut(Flat(gs), Bound(n))
    /\ act' = [op |-> "search", kind |-> "all", query |-> q, limit |-> n,
               out |-> [status |-> IF many THEN "ambiguous" ELSE IF res' = <<>> THEN "empty" ELSE "ok", results |-> res',
                        choices |-> IF many THEN [i \in DOMAIN gs |-> <<gs[i][1][1], Len(gs[i])>>] ELSE <<>>, uris |-> "served"]]
    /\ UNCHANGED <<ver, cfg>>
Has(k, id, v) == \E i \in DOMAIN Ids(k, v) : Ids(k, v)[i] = id
Follow(i) == /\ i \in DOMAIN res
             /\ act' = [op |-> "follow", kind |-> res[i][1], id |-> res[i][2],
                        out |-> IF Has(res[i][1], res[i][2], ver) THEN [found |-> TRUE, id |-> res[i][2], uris |-> "served"]
                                ELSE [found |-> FALSE, id |-> res[i][2], uris |-> "served"]]
             /\ UNCHANGED vars
\* the outcome of scaffolding the components found, and of validating what was scaffolded
Components == {res[i][2] : i \in {j \in DOMAIN res : res[j][1] = "component"}}
Scaffold(d) == /\ Components # {}
               /\ act' = [op |-> "scaffold", ids |-> Components, text |-> d,
                          out |-> IF \A c \in Components : Has("component", c, ver) THEN "valid" ELSE "error"]
               /\ UNCHANGED vars
Version(v) == v # ver /\ ver' = v /\ act' = [op |-> "version", to |-> v, out |-> "*"] /\ UNCHANGED <<res, cfg>>

Next == \/ \E q \in Queries, n \in Limits : SearchAll(q, n) \/ \E i \in 1..7 : Search(Kinds[i], q, n)
        \/ \E i \in 1..6 : Follow(i)
        \/ \E d \in {"plain", "arrow"} : Scaffold(d)
        \/ \E v \in {"2.1.0", "2.2.0"} : Version(v)

----------------------------------------------------------------------------
TypeOK == Len(res) <= 50
\* what was found in this version can be looked up in it
Reachable == [][act'.op = "search" => \A i \in DOMAIN res' : Has(res'[i][1], res'[i][2], ver)]_<<vars, act>>

Obs == [ver |-> ver]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
