------------------------------ MODULE StyleSet ------------------------------
(* Validation of a StyleSet object that is being edited, for one component    *)
(* whose StyleSet has variables, a component part and a child ("VsOld") and   *)
(* one whose StyleSet is a set of CSS properties with $-named parts ("VsNew").*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Comps,        \* components whose StyleSet is written
          Wraps,        \* how the object is introduced
          Layouts,      \* "spread": a line each, "compact": all on one line
          Versions,     \* versions the project may use, "-": not known
          Elems         \* pieces of the object that come and go

VARIABLES elems, wrap, layout, version, cfg, act
vars == <<elems, wrap, layout, version, cfg>>
View == vars

(* Pieces in the order they are written; those of the variables stand in a block of their own. *)
InBlock == <<"varOk", "varCss", "varBad", "varSame">>
Blocked == {InBlock[k] : k \in DOMAIN InBlock}
Order == <<"css", "part", "child", "own", "wrongPart", "wrongObject", "typed", "quoted", "comment", "colour", "foreign", "clear", "remark">>

Init == /\ cfg \in Comps /\ wrap \in Wraps /\ layout \in Layouts /\ version \in Versions /\ elems = {} /\ act = [op |-> "init"]
Say(o, x) == act' = [op |-> o, x |-> x] /\ UNCHANGED cfg
Flip(e) == elems' = (IF e \in elems THEN elems \ {e} ELSE elems \cup {e}) /\ Say("flip", e) /\ UNCHANGED <<wrap, layout, version>>
Wrap(w) == w # wrap /\ wrap' = w /\ Say("wrap", w) /\ UNCHANGED <<elems, layout, version>>
Lay(l) == l # layout /\ layout' = l /\ Say("layout", l) /\ UNCHANGED <<elems, wrap, version>>
Version(v) == v # version /\ version' = v /\ Say("version", v) /\ UNCHANGED <<elems, wrap, layout>>
(* a generated StyleSet has nothing to complain about and names the children as declared *)
Scaffold == act' = [op |-> "scaffold", out |-> [issues |-> 0, keys |-> IF cfg = "VsOld" THEN <<"icon">> ELSE <<"$loading">>]] /\ UNCHANGED vars
Next == \/ \E e \in Elems : Flip(e)
        \/ \E w \in Wraps : Wrap(w)
        \/ \E l \in Layouts : Lay(l)
        \/ \E v \in Versions : Version(v)
        \/ (elems = {} /\ Scaffold)
Spec == Init /\ [][Next]_<<vars, act>>

--------------------------------------------------------------------------
\* the object begins on this line
Top == IF wrap \in {"imported", "returned", "ref", "computed"} THEN 2 ELSE 1
Known == wrap \notin {"nowhere", "none"}
HasBlock == elems \cap Blocked # {}
Place(seq, e) == CHOOSE k \in DOMAIN seq : seq[k] = e
BlockLine == IF layout = "compact" THEN Top ELSE Top + 1
LineOf(e) == IF layout = "compact" THEN Top
             ELSE IF e \in Blocked THEN Top + 1 + Place(InBlock, e)
             ELSE Top + 2 + Len(InBlock) + Place(Order, e)
Old == cfg = "VsOld"
I(line, rule, what) == <<line, rule, what>>
Of(e) ==
    LET l == LineOf(e) IN
    CASE e = "css" -> IF Old THEN {I(l, "STYLESET_INTERFACE_KEY", e)} ELSE {}
      [] e = "part" -> IF Old THEN {I(l, "STYLESET_INTERFACE_KEY", e)} ELSE {}
      [] e \in {"child", "own"} -> IF Old THEN {} ELSE {I(l, "STYLESET_INTERFACE_KEY", e)}
      [] e \in {"wrongPart", "wrongObject", "quoted"} -> {I(l, "STYLESET_INTERFACE_KEY", e)}
      [] e = "typed" -> {I(l, "STYLESET_INTERFACE_KEY", e), I(l, "STYLESET_CHILD_REF", e)}
      [] e = "varOk" -> IF Old THEN {} ELSE {I(l, "STYLESET_VARIABLE_KEY", e)}
      [] e = "varCss" -> {I(l, "STYLESET_COMPONENT_PROPERTY_IN_VARIABLES", e)}
      [] e \in {"varBad", "varSame"} -> {I(l, "STYLESET_VARIABLE_KEY", e)}
      [] e \in {"colour", "clear"} -> IF Old THEN {I(l, "STYLESET_INTERFACE_KEY", e)} ELSE {}
      [] OTHER -> {}
Blocks == IF HasBlock /\ ~Old
          THEN {I(BlockLine, "STYLESET_INTERFACE_KEY", "block"),
                I(IF layout = "compact" THEN Top ELSE LineOf(CHOOSE e \in elems \cap Blocked : \A f \in elems \cap Blocked : Place(InBlock, e) <= Place(InBlock, f)),
                  "STYLESET_VARIABLES_UNSUPPORTED", "block")}
          ELSE {}
Keys == IF Known THEN UNION {Of(e) : e \in elems} \cup Blocks ELSE {}
\* these do not depend on the component
Values == {I(LineOf(e), "STYLESET_TOKEN", e) : e \in elems \cap {"colour", "clear"}}
          \cup (IF "foreign" \in elems THEN {I(LineOf("foreign"), "STYLESET_CSS_VARIABLE_NAME", "foreign")} ELSE {})
          \cup (IF "varSame" \in elems THEN {I(0, "STYLESET_SHAPE", "varSame")} ELSE {})
Context == CASE wrap = "none" -> {I(0, "STYLESET_COMPONENT_CONTEXT", "")}
             [] wrap = "nowhere" -> {I(0, "COMPONENT_EXISTS", "")}
             [] OTHER -> IF version = "2.1.0" /\ cfg = "VsNew" THEN {I(0, "VERSION_UNSUPPORTED", "")} ELSE {}
Wrong == Keys \cup Values \cup Context
Labels == {ToString(w[1]) \o " " \o w[2] : w \in Wrong}
Times(l) == Cardinality({w \in Wrong : ToString(w[1]) \o " " \o w[2] = l})
Valid == \A w \in Wrong : w[2] = "STYLESET_TOKEN"

TypeOK == elems \subseteq Elems
NeverUnchecked == ~Known => ~Valid

Obs == [issues |-> [l \in Labels |-> Times(l)], valid |-> Valid]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [comp |-> cfg, wrap |-> wrap, layout |-> layout, version |-> version], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
=============================================================================
