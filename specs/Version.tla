------------------------------- MODULE Version -------------------------------
(* Which version a request is about, and which entries that version has.      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Parts, Given, Declared, Entries, Sections

VARIABLES given, section, declared, entry, cfg, act
vars == <<given, section, declared, entry, cfg>>
View == vars

\* ways of writing a version down: <<kind, text before, text after>>
Forms == [exact |-> <<"v", "", "">>, caret |-> <<"v", "^", "">>, tilde |-> <<"v", "~", "">>, min |-> <<"v", ">=", "">>,
          prefix |-> <<"v", "v", "">>, alias |-> <<"v", "npm:vlossom@", "">>, plus |-> <<"v", "", "+">>,
          spaced |-> <<"v", " ", " ">>, span |-> <<"v", ">=", " <9.0.0">>,
          local |-> <<"u", "workspace:^", "">>, file |-> <<"u", "file:../vlossom-", ".tgz">>,
          link |-> <<"u", "LINK:../vlossom-", "">>, portal |-> <<"u", "portal:/vlossom-", "">>]
Words == [latest |-> "latest", star |-> "*", next |-> "NEXT", beta |-> "beta", short |-> "^2.1", text |-> "workspace:*"]
None == <<"none">>
Blank == <<"blank">>

PartSets == [small |-> {<<2, 1, 0>>, <<2, 10, 0>>, <<10, 0, 2>>},
             large |-> {<<2, 1, 0>>, <<2, 1, 9>>, <<2, 1, 10>>, <<2, 9, 11>>, <<2, 10, 0>>, <<9, 9, 9>>, <<10, 0, 2>>, <<1, 12, 12>>}]
Vs == PartSets[Parts]
Written(fs) == {<<"form", f, v>> : f \in fs \cap DOMAIN Forms, v \in Vs} \cup {<<"word", w>> : w \in fs \cap DOMAIN Words}
               \cup (IF "none" \in fs THEN {None} ELSE {}) \cup (IF "blank" \in fs THEN {Blank} ELSE {})
Dots(v) == ToString(v[1]) \o "." \o ToString(v[2]) \o "." \o ToString(v[3])
Text(x) == IF x[1] = "form" THEN Forms[x[2]][2] \o Dots(x[3]) \o Forms[x[2]][3]
           ELSE IF x[1] = "word" THEN Words[x[2]] ELSE IF x[1] = "blank" THEN "  " ELSE "-"

Init == /\ cfg = [x |-> 0]
        /\ given \in Written(Given) /\ section \in Sections /\ declared \in Written(Declared) /\ entry \in Written(Entries)
        /\ section \in {"absent", "broken", "number"} => declared = CHOOSE d \in Written(Declared) : TRUE
        /\ act = [op |-> "init"]
Next == UNCHANGED vars /\ act' = [op |-> "again"]

----------------------------------------------------------------------------
Manifest == section \notin {"absent", "broken", "number"} /\ declared \notin {None, Blank}
IsGiven == given \notin {None, Blank}
Source == IF IsGiven THEN "input" ELSE IF Manifest THEN "packageJson" ELSE "unknown"
Raw == IF IsGiven THEN given ELSE IF Manifest THEN declared ELSE None
Named(x) == x[1] = "form" /\ Forms[x[2]][1] = "v"
Detected == IF Named(Raw) THEN Dots(Raw[3]) ELSE "-"
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Status == IF ~Named(Raw) \/ ~Named(entry) THEN "unknown"
          ELSE IF Less(Raw[3], entry[3]) THEN "unsupported" ELSE "supported"

TypeOK == Status \in {"unknown", "supported", "unsupported"}
\* the order is total: of two versions, one has the entries of the other
Total == \A a, b \in Vs : a = b \/ Less(a, b) \/ Less(b, a)

Obs == [source |-> Source, detected |-> Detected, says |-> ~Named(Raw), status |-> Status]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs,
    c |-> [given |-> Text(given), section |-> section, declared |-> Text(declared), entry |-> Text(entry)], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
