------------------------------ MODULE Overlay ------------------------------
(* The global stack of open overlays and the dispatch of key presses.        *)
(*                                                                           *)
(* An overlay is open while it is on the stack.  Closing an overlay, by      *)
(* whatever route, notifies it once; the notification may itself close other *)
(* overlays (config `onClose`), and those closings are part of the same step.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,            \* number of overlays
          Keys,         \* key codes
          Reactions,    \* what a close notification may do: "none","pop","clear","next"
          WithRename    \* TRUE: identifiers change while open; FALSE: removal by identifier

VARIABLES stack,        \* open overlays, oldest first
          cfg,          \* [onClose |-> [1..N -> Reactions], keys |-> [1..N -> SUBSET Keys]]
          act
vars == <<stack, cfg>>
View == vars

Ids == 1..N
Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Zero == [i \in Ids |-> 0]
Inc(f, i) == [f EXCEPT ![i] = @ + 1]
Next1(i) == IF i = N THEN 1 ELSE i + 1

\* Result of closing overlay i: the remaining stack and how often each overlay was notified.
RECURSIVE CloseIn(_, _), ClearIn(_)
CloseIn(r, i) ==
  IF i \notin Range(r.s) THEN r
  ELSE LET r1 == [s |-> Without(r.s, i), c |-> Inc(r.c, i)]
       IN CASE cfg.onClose[i] = "none"  -> r1
            [] cfg.onClose[i] = "next"  -> CloseIn(r1, Next1(i))
            [] cfg.onClose[i] = "pop"   -> IF r1.s = <<>> THEN r1 ELSE CloseIn(r1, r1.s[Len(r1.s)])
            [] cfg.onClose[i] = "clear" -> ClearIn(r1)
ClearIn(r) == IF r.s = <<>> THEN r ELSE ClearIn(CloseIn(r, r.s[Len(r.s)]))

R0 == [s |-> stack, c |-> Zero]
Out(o, c, k) == [opened |-> o, closed |-> c, keyed |-> k]
Closing(r, a) == /\ stack' = r.s
                 /\ act' = a @@ [out |-> Out(Zero, r.c, Zero)]
                 /\ UNCHANGED cfg

Init == /\ stack = <<>>
        /\ cfg \in [onClose : [Ids -> Reactions], keys : {[i \in Ids |-> CASE i % 3 = 1 -> Keys [] i % 3 = 2 -> {"Escape"} [] OTHER -> {"Enter"}]}]
        /\ act = [op |-> "init"]

Open(i) == /\ i \notin Range(stack)
           /\ stack' = Append(stack, i)
           /\ act' = [op |-> "open", i |-> i, out |-> Out(Inc(Zero, i), Zero, Zero)]
           /\ UNCHANGED cfg
\* the overlay's own component asks to close
Close(i) == i \in Range(stack) /\ Closing(CloseIn(R0, i), [op |-> "close", i |-> i])
\* someone removes it through the shared store
Remove(i) == ~WithRename /\ Closing(CloseIn(R0, i), [op |-> "remove", i |-> i])
\* the component goes away while open (a fresh, closed one takes its place)
Unmount(i) == Closing(CloseIn(R0, i), [op |-> "unmount", i |-> i])
Pop == Closing(IF stack = <<>> THEN R0 ELSE CloseIn(R0, stack[Len(stack)]), [op |-> "pop"])
Clear == Closing(ClearIn(R0), [op |-> "clear"])
\* the component's identifier changes while it may be open
Rename(i) == /\ WithRename /\ i \in Range(stack)
             /\ act' = [op |-> "rename", i |-> i, out |-> Out(Zero, Zero, Zero)]
             /\ UNCHANGED <<stack, cfg>>
Key(k) == /\ UNCHANGED <<stack, cfg>>
          /\ act' = [op |-> "key", k |-> k,
                     out |-> Out(Zero, Zero,
                        IF stack # <<>> /\ k \in cfg.keys[stack[Len(stack)]] THEN Inc(Zero, stack[Len(stack)]) ELSE Zero)]

Next == \/ \E i \in Ids : Open(i) \/ Close(i) \/ Remove(i) \/ Unmount(i) \/ Rename(i)
        \/ Pop \/ Clear
        \/ \E k \in Keys : Key(k)
Spec == Init /\ [][Next]_<<vars, act>>

--------------------------------------------------------------------------
TypeOK == stack \in UNION {[1..n -> Ids] : n \in 0..N}
NoDuplicates == \A i, j \in 1..Len(stack) : stack[i] = stack[j] => i = j
Sum(f) == LET S[n \in 0..N] == IF n = 0 THEN 0 ELSE S[n-1] + f[n] IN S[N]
\* at most one overlay handles a key, and it is the top one
KeyToTop == [][act'.op = "key" => /\ Sum(act'.out.keyed) <= 1
                                  /\ \A i \in Ids : act'.out.keyed[i] = 1 => stack # <<>> /\ stack[Len(stack)] = i]_<<vars, act>>
\* an overlay is notified of closing exactly when it leaves the stack, and once
NotifiedOnce == [][\A i \in Ids : /\ act'.out.closed[i] = (IF i \in Range(stack) /\ i \notin Range(stack') THEN 1 ELSE 0)
                                  /\ act'.out.opened[i] = (IF i \notin Range(stack) /\ i \in Range(stack') THEN 1 ELSE 0)]_<<vars, act>>
\* the relative order of surviving overlays never changes
OrderKept == [][\E s \in {SelectSeq(stack, LAMBDA y : y \in Range(stack'))} : s = SelectSeq(stack', LAMBDA y : y \in Range(stack))]_<<vars, act>>

Obs == [open |-> [i \in Ids |-> i \in Range(stack)], depth |-> Len(stack), top |-> IF stack = <<>> THEN 0 ELSE stack[Len(stack)]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> cfg, i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
