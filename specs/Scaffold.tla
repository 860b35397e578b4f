------------------------------ MODULE Scaffold ------------------------------
(* Scaffolds (P52).  A client asks for scaffolds of all kinds, one after    *)
(* another, for projects of different versions.  Each is answered from the  *)
(* version of its own project, and what is handed out passes validation.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Projects, Wishes, Texts, Formats, Frames

VARIABLES last,     \* the version that was asked for before
          cfg,
          act

vars == <<last, cfg>>
View == vars
Obs == [up |-> TRUE]

\* how a request says what is installed
Version(p) == CASE p = "old" -> "2.1.0"
                [] p = "new" -> "2.2.0"
                [] p = "package" -> "2.2.0"
                [] p = "dev" -> "2.1.0"
                [] p = "both" -> "2.1.0"     \* a version and a package file: the version counts
                [] OTHER -> "none"           \* nothing, a package file without vlossom, a broken one
Comps(w) == CASE w = "none" -> <<>>
              [] w = "alpha" -> <<"alpha">>
              [] w = "gamma" -> <<"gamma">>
              [] w = "beta" -> <<"beta">>
              [] w = "twice" -> <<"alpha", "alpha">>
              [] w = "pair" -> <<"gamma", "alpha">>
              [] w = "mixed" -> <<"alpha", "nowhere", "beta">>
\* alpha is in both versions, gamma left, beta came but is said to need a later one still
Known(c, v) == c = "alpha" \/ (c = "gamma" /\ v = "2.1.0") \/ (c = "beta" /\ v = "2.2.0")
Late(c) == c = "beta"

Pascal(c) == CASE c = "alpha" -> "VsAlpha" [] c = "gamma" -> "VsGamma" [] c = "beta" -> "VsBeta" [] OTHER -> "VsNowhere"
Tag(c) == IF c = "alpha" THEN "<vs-alpha :label=\"label\"><!-- content --></vs-alpha>"
          ELSE "<vs-gamma v-model=\"modelValue\" :item-key=\"itemKey\" />"
Title(d) == CASE d = "plain" -> "two components" [] d = "empty" -> "Vlossom UI" [] d = "arrow" -> "from -> to <b> -> there" [] d = "long" -> "79 and ..."

Names(cs) == (IF \E i \in DOMAIN cs : cs[i] = "alpha" THEN <<"VsAlpha">> ELSE <<>>)
          \o (IF \E i \in DOMAIN cs : cs[i] = "gamma" THEN <<"VsGamma">> ELSE <<>>)
Bound(cs) == \E i \in DOMAIN cs : cs[i] = "gamma"
RECURSIVE Missing(_, _)
Missing(cs, v) == IF cs = <<>> THEN <<>>
                  ELSE (IF Known(Head(cs), v) THEN <<>> ELSE <<"vs-" \o Head(cs)>>) \o Missing(Tail(cs), v)

Refused(s) == [status |-> s, unknown |-> <<>>, late |-> <<>>, code |-> FALSE]
Usage(p, w, d, f, ts) ==
    LET v == Version(p)
        cs == Comps(w) IN
    IF v = "none" THEN Refused("skipped")
    ELSE IF cs = <<>> THEN Refused("error")
    ELSE IF Missing(cs, v) # <<>> THEN [Refused("error") EXCEPT !.unknown = Missing(cs, v)]
    ELSE IF \E i \in DOMAIN cs : Late(cs[i]) THEN [Refused("error") EXCEPT !.late = <<"VsBeta">>]
    ELSE [status |-> "ok", title |-> Title(d), tags |-> [i \in DOMAIN cs |-> Tag(cs[i])], names |-> Names(cs),
          ref |-> Bound(cs), typed |-> ts, fenced |-> f = "markdown", valid |-> TRUE]
Style(p, c) ==
    LET v == Version(p) IN
    IF v = "none" THEN Refused("skipped")
    ELSE IF ~Known(c, v) THEN Refused("error")
    ELSE IF Late(c) THEN [Refused("error") EXCEPT !.late = <<"VsBeta">>]
    ELSE [status |-> "ok", valid |-> TRUE]
Setup(w) == [status |-> "ok", at |-> IF w = "nuxt" THEN "plugins/vlossom.ts" ELSE "src/main.ts", same |-> TRUE, mounts |-> w # "nuxt", valid |-> TRUE]

Init == last = "none" /\ cfg = [none |-> 0] /\ act = [op |-> "init"]

AskUsage ==
    \E p \in Projects, w \in Wishes, d \in Texts, f \in Formats, ts \in BOOLEAN :
        /\ last' = Version(p)
        /\ act' = [op |-> "usage", project |-> p, ids |-> Comps(w), text |-> d, format |-> f, typed |-> ts, out |-> Usage(p, w, d, f, ts)]
        /\ UNCHANGED cfg
AskStyle ==
    \E p \in Projects, c \in {"alpha", "beta", "gamma", "nowhere"} :
        /\ last' = Version(p)
        /\ act' = [op |-> "style", project |-> p, id |-> c, out |-> Style(p, c)]
        /\ UNCHANGED cfg
AskSetup ==
    \E p \in Projects, w \in Frames :
        /\ last' = Version(p)
        /\ act' = [op |-> "setup", project |-> p, framework |-> w, out |-> Setup(w)]
        /\ UNCHANGED cfg

Next == AskUsage \/ AskStyle \/ AskSetup
Spec == Init /\ [][Next]_vars

TypeOK == last \in {"none", "2.1.0", "2.2.0"}
\* nothing is handed out for a project without vlossom, except what sets it up
Installed ==
    [][act'.op \in {"usage", "style"} /\ act'.out.status = "ok" => Version(act'.project) # "none"]_<<vars, act>>

EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
