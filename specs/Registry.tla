------------------------------ MODULE Registry ------------------------------
(* Requests for repository data while parts of the network fail and recover. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Setups,       \* {<<kinds of request, versions asked for>>}
          Modes,        \* how a failing resource fails
          MaxDown

VARIABLES down,         \* resource kinds failing right now
          seen,         \* per kind and version: "never", "failed" (the last request could fail) or "ok"
          cfg, act
vars == <<down, seen, cfg>>
View == vars

Single(ks, vs) == {<<<<k>>, v>> : k \in ks, v \in vs}
AllKinds == {"component", "missing", "source", "search", "all", "directive", "composable", "option", "token", "changelog", "scaffold", "validate"}
Pairs == {<<"A", "Am">>, <<"A", "B">>, <<"N", "L">>, <<"X", "N">>}
QuickSetups == Single(AllKinds, Pairs) \cup {<<<<"component", "all">>, <<"A", "B">>>>, <<<<"missing", "component">>, <<"A", "X">>>>,
                                             <<<<"composable", "searchall">>, <<"B", "N">>>>}
FewSetups == Single({"component", "directive", "composable", "token", "option"}, {<<"A", "B">>, <<"X", "N">>})

Needs(k) == CASE k \in {"component", "missing", "source", "scaffold", "validate"} -> {"ref", "main", "readme", "aux"}
              [] k = "search" -> {"ref", "main", "dir"}
              [] k \in {"all", "composable"} -> {"ref", "main", "dir", "readme", "aux"}
              [] k \in {"directive", "option"} -> {"ref", "main", "dir", "readme"}
              [] k = "token" -> {"ref", "main", "aux"}
              [] k = "changelog" -> {"ref", "main", "rel"}
              [] k = "searchall" -> {"ref", "main", "dir", "readme", "aux"}
Used == UNION {Needs(cfg.kinds[i]) : i \in DOMAIN cfg.kinds}

Init == /\ \E s \in Setups, m \in Modes : cfg = [kinds |-> s[1], vers |-> s[2], mode |-> m]
        /\ down = {} /\ seen = [i \in DOMAIN cfg.kinds |-> [j \in DOMAIN cfg.vers |-> "never"]]
        /\ act = [op |-> "init"]

May(k) == down \cap Needs(k) # {}
After(i) == IF May(cfg.kinds[i]) THEN "failed" ELSE "ok"
\* a request may fail only while something it needs is failing, and otherwise is answered in full
Ask(i, j) == /\ seen' = [seen EXCEPT ![i][j] = IF @ = "ok" THEN "ok" ELSE After(i)]
             /\ act' = [op |-> "ask", asks |-> << <<cfg.kinds[i], cfg.vers[j]>> >>, may |-> May(cfg.kinds[i]), out |-> <<"right">>]
             /\ UNCHANGED <<down, cfg>>
\* several requests on their way at the same time
Both(i) == /\ seen' = [seen EXCEPT ![i] = [j \in DOMAIN cfg.vers |-> IF @[j] = "ok" THEN "ok" ELSE After(i)]]
           /\ act' = [op |-> "ask", asks |-> << <<cfg.kinds[i], cfg.vers[1]>>, <<cfg.kinds[i], cfg.vers[2]>>, <<cfg.kinds[i], cfg.vers[1]>> >>,
                      may |-> May(cfg.kinds[i]), out |-> <<"right", "right", "right">>]
           /\ UNCHANGED <<down, cfg>>
Fail(c) == /\ c \in Used \ down /\ Cardinality(down) < MaxDown /\ down' = down \cup {c}
           /\ act' = [op |-> "net", down |-> down', mode |-> cfg.mode] /\ UNCHANGED <<seen, cfg>>
Heal == /\ down # {} /\ down' = {} /\ act' = [op |-> "net", down |-> {}, mode |-> cfg.mode] /\ UNCHANGED <<seen, cfg>>

Next == \/ \E i \in DOMAIN cfg.kinds, j \in DOMAIN cfg.vers : Ask(i, j)
        \/ \E i \in DOMAIN cfg.kinds : Both(i)
        \/ \E c \in {"ref", "main", "dir", "readme", "aux", "rel"} : Fail(c)
        \/ Heal

----------------------------------------------------------------------------
TypeOK == down \subseteq Used /\ Cardinality(down) <= MaxDown
\* once answered, always answered; and nothing fails while the network is whole
Healthy == [][(act'.op = "ask" /\ down = {}) => \A i \in DOMAIN seen : \A j \in DOMAIN seen[i] : seen'[i][j] # seen[i][j] => seen'[i][j] = "ok"]_<<vars, act>>

Obs == [quiet |-> TRUE]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
