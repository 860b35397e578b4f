-------------------------------- MODULE Field --------------------------------
(* One input field: its value, the rules and messages that apply, checks that *)
(* answer later, and the changed / error-visible flags.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* input kinds
          RuleLists,  \* possible rule lists, by name
          MsgLists,   \* possible message lists, by name
          MaxPend,    \* bound on unanswered checks
          Toggle      \* the built-in rules can be switched off and on

VARIABLES v,          \* current value: "" (cleared), "x" or "y"
          rules, msgs, nodef,
          pend,       \* unanswered checks <<rule or message, value>>
          shown,      \* rule messages are visible
          changed, cfg, act
vars == <<v, rules, msgs, nodef, pend, shown, changed, cfg>>
View == vars

\* S: immediate, rejects "x".  A, B: answer later, reject "y" and "x".
RulesOf(n) == CASE n = "-" -> {} [] n = "S" -> {"S"} [] n = "A" -> {"A"} [] n = "AB" -> {"A", "B"}
                [] n = "SA" -> {"S", "A"} [] n = "SB" -> {"S", "B"}
\* P: a plain message.  I: immediate.  L, K: answer later.
MsgsOf(n) == CASE n = "-" -> {} [] n = "I" -> {"I"} [] n = "L" -> {"L"} [] n = "IL" -> {"I", "L"} [] n = "LK" -> {"L", "K"} [] n = "PL" -> {"P", "L"}
Later == {"A", "B", "L", "K"}
Vals(k) == IF k \in {"checkbox", "switch", "radio"} THEN {"", "x"} ELSE {"", "x", "y"}
\* what a user can do directly; going back to nothing is not possible everywhere
UserTo(k, u) == u # "" \/ k \notin {"radio", "radioset", "select"}
Rejects(r, u) == CASE r = "S" -> u = "x" [] r = "A" -> u = "y" [] r = "B" -> u = "x" [] r = "D" -> u = ""

Applicable == RulesOf(rules) \cup (IF nodef THEN {} ELSE {"D"})
Started(lists, u) == {<<r, u>> : r \in lists \cap Later}
RulePend == \E r \in RulesOf(rules) : <<r, v>> \in pend
MsgPend == \E m \in MsgsOf(msgs) : <<m, v>> \in pend

Init == /\ cfg \in [kind : Kinds, init : {"", "x"}]
        /\ v = cfg.init /\ rules \in RuleLists /\ msgs \in MsgLists /\ nodef = FALSE
        /\ pend = Started(RulesOf(rules) \cup MsgsOf(msgs), v)
        /\ shown = FALSE /\ changed = FALSE /\ act = [op |-> "init"]

Fits(p) == Cardinality(p) <= MaxPend
Recheck(rs, ms, u) == pend' = pend \cup Started(RulesOf(rs) \cup MsgsOf(ms), u) /\ Fits(pend')

Edit(op, u) == /\ u # v /\ u \in Vals(cfg.kind)
               /\ op = "user" => UserTo(cfg.kind, u)
               /\ v' = u /\ changed' = TRUE /\ shown' = TRUE
               /\ Recheck(rules, msgs, u)
               /\ act' = [op |-> op, v |-> u]
               /\ UNCHANGED <<rules, msgs, nodef, cfg>>
SetRules(l) == /\ l # rules /\ rules' = l /\ Recheck(l, msgs, v)
               /\ act' = [op |-> "rules", list |-> l]
               /\ UNCHANGED <<v, msgs, nodef, shown, changed, cfg>>
SetMsgs(l) == /\ l # msgs /\ msgs' = l /\ Recheck(rules, l, v)
              /\ act' = [op |-> "msgs", list |-> l]
              /\ UNCHANGED <<v, rules, nodef, shown, changed, cfg>>
Switch == /\ Toggle /\ nodef' = ~nodef /\ Recheck(rules, "-", v)
          /\ act' = [op |-> "noDefaults", on |-> ~nodef]
          /\ UNCHANGED <<v, rules, msgs, shown, changed, cfg>>
Answer(c, u) == /\ <<c, u>> \in pend /\ pend' = pend \ {<<c, u>>}
                /\ act' = [op |-> "answer", c |-> c, v |-> u]
                /\ UNCHANGED <<v, rules, msgs, nodef, shown, changed, cfg>>

NowReject == \E r \in Applicable \ Later : Rejects(r, v)
Valid == ~\E r \in Applicable : Rejects(r, v)
ValidSeen == IF NowReject THEN FALSE ELSE IF RulePend THEN "*" ELSE Valid

Validate == /\ shown' = TRUE
            /\ act' = [op |-> "validate", out |-> ValidSeen]
            /\ UNCHANGED <<v, rules, msgs, nodef, pend, changed, cfg>>
Clear == /\ v' = "" /\ shown' = FALSE /\ changed' = FALSE /\ Recheck(rules, msgs, "")
         /\ act' = [op |-> "clear"]
         /\ UNCHANGED <<rules, msgs, nodef, cfg>>

Next == \/ \E u \in {"", "x", "y"} : Edit("user", u) \/ Edit("assign", u)
        \/ \E l \in RuleLists : SetRules(l)
        \/ \E l \in MsgLists : SetMsgs(l)
        \/ \E p \in pend : Answer(p[1], p[2])
        \/ Switch \/ Validate \/ Clear

----------------------------------------------------------------------------
TypeOK == /\ v \in Vals(cfg.kind) /\ shown \in BOOLEAN /\ changed \in BOOLEAN
          /\ pend \subseteq (Later \X {"", "x", "y"})
\* a changed field always shows its errors: only clearing takes either back
ChangedShows == changed => shown
ShownStays == [][shown /\ ~shown' => act'.op = "clear"]_<<vars, act>>
ChangedByEdit == [][~changed /\ changed' => act'.op \in {"user", "assign"} /\ v # v']_<<vars, act>>
RuleText(r) == IF r \notin Applicable \/ ~shown THEN 0
               ELSE IF r \in Later /\ RulePend THEN "*"
               ELSE IF Rejects(r, v) THEN 1 ELSE 0
MsgText(m, u) == IF m \notin MsgsOf(msgs) \/ u # v THEN 0
                 ELSE IF m \in Later /\ MsgPend THEN "*" ELSE 1
Obs == [value |-> v, shows |-> v, changed |-> changed, valid |-> ValidSeen,
        error |-> IF ~shown THEN FALSE ELSE IF NowReject THEN TRUE ELSE IF RulePend THEN "*" ELSE ~Valid,
        errors |-> [r \in {"D", "S", "A", "B"} |-> RuleText(r)],
        notes |-> [m \in {"I", "L", "K"} |-> [u \in {"", "x", "y"} |-> MsgText(m, u)]],
        plain |-> IF "P" \in MsgsOf(msgs) THEN 1 ELSE 0, other |-> 0]
\* an answer for another value or another list changes nothing visible
Stale == [][act'.op = "answer" /\ (act'.v # v \/ act'.c \notin RulesOf(rules) \cup MsgsOf(msgs))
              => Obs' = Obs]_<<vars, act>>
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [kind |-> cfg.kind, init |-> cfg.init, rules |-> rules, msgs |-> msgs], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
