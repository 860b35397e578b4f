-------------------------------- MODULE Form ---------------------------------
(* A form and the fields inside it: fields come and go, are renamed, edited,  *)
(* validated and cleared, alone or through the form.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Kinds,     \* set of kind tuples, one kind per field slot
          Names,        \* fields change or exchange their names
          Restrict,     \* the form can be disabled and read-only
          Twice         \* requests can be repeated before the first one is carried out

VARIABLES there,        \* fields currently inside the form
          v, shown, changed, name, dis, ro, cfg, act
vars == <<there, v, shown, changed, name, dis, ro, cfg>>
View == vars

Ids == 1..N
Mixes2 == {<<"input", "checkbox">>, <<"select", "date">>, <<"radioset", "textarea">>, <<"switch", "checkboxset">>, <<"filedrop", "multiselect">>}
Pair == {<<"input", "checkbox">>}
Triple == {<<"input", "switch", "select">>}
Plain3 == {<<"input", "input", "textarea">>}
Range(f) == {f[i] : i \in DOMAIN f}

Init == /\ cfg \in Kinds
        /\ there \in {{1}, Ids} /\ v \in [Ids -> {"", "x"}]
        /\ shown = {} /\ changed = {} /\ name = [i \in Ids |-> 2 * i]
        /\ dis = FALSE /\ ro = FALSE /\ act = [op |-> "init"]

Bad == {i \in there : v[i] = ""}
Valid == Bad = {}
Frozen == dis \/ ro

Mount(i) == /\ i \notin there /\ there' = there \cup {i}
            /\ act' = [op |-> "mount", i |-> i]
            /\ UNCHANGED <<v, shown, changed, name, dis, ro, cfg>>
Unmount(i) == /\ i \in there /\ there' = there \ {i}
              /\ shown' = shown \ {i} /\ changed' = changed \ {i}
              /\ act' = [op |-> "unmount", i |-> i]
              /\ UNCHANGED <<v, name, dis, ro, cfg>>
\* the user has no direct way to empty these
Can(i, u) == u # "" \/ cfg[i] \notin {"radio", "radioset", "select"}
Set(i, u) == /\ v' = [v EXCEPT ![i] = u] /\ shown' = shown \cup {i} /\ changed' = changed \cup {i}
User(i, u) == /\ i \in there /\ u # v[i] /\ Can(i, u)
              /\ IF Frozen THEN UNCHANGED <<v, shown, changed>> ELSE Set(i, u)
              /\ act' = [op |-> "user", i |-> i, v |-> u]
              /\ UNCHANGED <<there, name, dis, ro, cfg>>
Assign(i, u) == /\ i \in there /\ u # v[i] /\ Set(i, u)
                /\ act' = [op |-> "assign", i |-> i, v |-> u]
                /\ UNCHANGED <<there, name, dis, ro, cfg>>
FieldClear(i) == /\ i \in there /\ v' = [v EXCEPT ![i] = ""]
                 /\ shown' = shown \ {i} /\ changed' = changed \ {i}
                 /\ act' = [op |-> "fieldClear", i |-> i]
                 /\ UNCHANGED <<there, name, dis, ro, cfg>>
FieldValidate(i) == /\ i \in there /\ shown' = shown \cup {i}
                    /\ act' = [op |-> "fieldValidate", i |-> i, out |-> v[i] # ""]
                    /\ UNCHANGED <<there, v, changed, name, dis, ro, cfg>>
Validate(n) == /\ shown' = shown \cup there
               /\ act' = [op |-> "validate", times |-> n, out |-> [ok |-> Valid, bad |-> [i \in Ids |-> i \in Bad]]]
               /\ UNCHANGED <<there, v, changed, name, dis, ro, cfg>>
Clear(n) == /\ v' = [i \in Ids |-> IF i \in there THEN "" ELSE v[i]] /\ shown' = {} /\ changed' = {}
            /\ act' = [op |-> "clear", times |-> n]
            /\ UNCHANGED <<there, name, dis, ro, cfg>>
Rename(i) == /\ i \in there
             /\ LET to == IF name[i] = 2 * i + 1 THEN 2 * i ELSE 2 * i + 1
                IN to \notin Range(name) /\ name' = [name EXCEPT ![i] = to] /\ act' = [op |-> "names", to |-> name']
             /\ UNCHANGED <<there, v, shown, changed, dis, ro, cfg>>
Swap(i, j) == /\ {i, j} \subseteq there /\ i < j
              /\ name' = [name EXCEPT ![i] = name[j], ![j] = name[i]]
              /\ act' = [op |-> "names", to |-> name']
              /\ UNCHANGED <<there, v, shown, changed, dis, ro, cfg>>
Disable == /\ dis' = ~dis /\ act' = [op |-> "disabled", on |-> ~dis]
           /\ UNCHANGED <<there, v, shown, changed, name, ro, cfg>>
Readonly == /\ ro' = ~ro /\ act' = [op |-> "readonly", on |-> ~ro]
            /\ UNCHANGED <<there, v, shown, changed, name, dis, cfg>>

Next == \/ \E i \in Ids : \/ Mount(i) \/ Unmount(i) \/ FieldClear(i) \/ FieldValidate(i)
                          \/ \E u \in {"", "x"} : User(i, u) \/ Assign(i, u)
        \/ Validate(1) \/ Clear(1)
        \/ Twice /\ (Validate(2) \/ Clear(2))
        \/ Names /\ \E i, j \in Ids : Rename(i) \/ Swap(i, j)
        \/ Restrict /\ (Disable \/ Readonly)

----------------------------------------------------------------------------
TypeOK == shown \subseteq there /\ changed \subseteq shown /\ \A i, j \in Ids : name[i] = name[j] => i = j
FrozenHolds == [][Frozen /\ act'.op = "user" => v' = v]_<<vars, act>>
AbsentKept == [][\A i \in Ids \ there : v'[i] = v[i]]_<<vars, act>>

Obs == [valid |-> Valid, changed |-> changed # {},
        fields |-> [i \in Ids |-> IF i \in there
                                  THEN [v |-> v[i], shows |-> v[i], error |-> i \in shown /\ v[i] = "", changed |-> i \in changed, frozen |-> Frozen]
                                  ELSE [v |-> v[i], shows |-> "-", error |-> FALSE, changed |-> FALSE, frozen |-> FALSE]]]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [kinds |-> cfg, there |-> [i \in Ids |-> i \in there], name |-> name], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
