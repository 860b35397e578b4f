-------------------------------- MODULE Usage --------------------------------
(* What the usage validator has to say about small templates.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTags,      \* one tag, or a second one beside or inside it
          MaxAttrs, Comps, Writings, Attrs1, Attrs2, Slots, Places, Imports, Versions, Closings

VARIABLES tags,         \* <<[comp, writing, attrs, slot, closing]>>
          place,        \* where the second tag stands: "beside", "inside", "slotted", "remark" (commented out)
          import, version, cfg, act
vars == <<tags, place, import, version, cfg>>
View == vars

----------------------------------------------------------------------------
(* The registry. VsPlain documents its slots cell-a, cell-b, ... as cell-[key].
    "VsNowhere" is in none of the versions, "VsNewer" came with 2.2.0. *)
Props == [VsField |-> {"modelValue", "label", "size"}, VsPlain |-> {"title"}, VsNewer |-> {"size"}]
Required == [VsField |-> {"label"}, VsPlain |-> {}, VsNewer |-> {}]
Events == [VsField |-> {"update:modelValue", "pickDone"}, VsPlain |-> {}, VsNewer |-> {"pickDone"}]
SlotNames == [VsField |-> {"default", "head"}, VsPlain |-> {"default", "cell-a", "cell-b"}, VsNewer |-> {}]
Known == DOMAIN Props
Kebab == [VsField |-> "vs-field", VsPlain |-> "vs-plain", VsNewer |-> "vs-newer", VsNowhere |-> "vs-nowhere"]

(* Attributes: what is written, what it is and what it names. *)
A(text, kind, name) == [text |-> text, kind |-> kind, name |-> name]
Attrs == [label |-> A("label=\"Your full name\"", "prop", "label"),
          bound |-> A(":label=\"a > b ? c : d\"", "prop", "label"),
          long |-> A("v-bind:label=\"a\"", "prop", "label"),
          single |-> A("label='it is size = 3'", "prop", "label"),
          size |-> A("size=\"lg\"", "prop", "size"),
          bare |-> A("size", "prop", "size"),
          title |-> A("title=\"wrong one\"", "prop", "title"),
          wrong |-> A("wrong=\"1\"", "prop", "wrong"),
          wrongBare |-> A("wrong", "prop", "wrong"),
          wrongBound |-> A(":wrong-one=\"x\"", "prop", "wrongOne"),
          wrongLong |-> A("v-bind:wrong-one=\"x\"", "prop", "wrongOne"),
          done |-> A("@pick-done=\"(v) => (x = v)\"", "event", "pickDone"),
          doneOnce |-> A("@pick-done.once=\"f\"", "event", "pickDone"),
          camel |-> A("@pickDone=\"f\"", "event", "pickDone"),
          update |-> A("@update:model-value=\"(v) => x = v\"", "event", "update:modelValue"),
          other |-> A("@not-there=\"f\"", "event", "notThere"),
          otherLong |-> A("v-on:not-there=\"f\"", "event", "notThere"),
          otherOnce |-> A("@not-there.once=\"f\"", "event", "notThere"),
          click |-> A("@click=\"() => go(wrong)\"", "free", ""),
          clickStop |-> A("@click.stop", "free", ""),
          if |-> A("v-if=\"a > b && c < d\"", "free", ""),
          class |-> A("class=\"a wrong b\"", "free", ""),
          bclass |-> A(":class=\"{ a: b, wrong: c }\"", "free", ""),
          data |-> A("data-x=\"1\"", "free", ""),
          aria |-> A("aria-label=\"wrong one\"", "free", ""),
          key |-> A(":key=\"k\"", "free", ""),
          model |-> A("v-model=\"x\"", "model", "modelValue"),
          modelTrim |-> A("v-model.trim=\"x\"", "model", "modelValue"),
          modelTitle |-> A("v-model:title=\"x\"", "model", "title"),
          modelLabel |-> A("v-model:label=\"x\"", "model", "label")]
AllAttrs == DOMAIN Attrs

(* Slots: how a template tag names one. *)
SlotText == [none |-> "", head |-> "#head", headLong |-> "v-slot:head", headProps |-> "#head=\"{ a, b }\"",
             bogus |-> "#bogus", bogusLong |-> "v-slot:bogus", bogusProps |-> "#bogus=\"{ a }\"", default |-> "#default", cell |-> "#cell-a", cellLong |-> "v-if=\"a > '#bogus'\" v-slot:cell-b",
             cellBogus |-> "v-if=\"a > '#head'\" #cel"]
SlotOf == [none |-> "", head |-> "head", headLong |-> "head", headProps |-> "head", bogus |-> "bogus",
           bogusLong |-> "bogus", bogusProps |-> "bogus", default |-> "default",
           cell |-> "cell-a", cellLong |-> "cell-b", cellBogus |-> "cel"]

----------------------------------------------------------------------------
Lists(set, n) == UNION {[1..k -> set] : k \in 0..n}
OnePer(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j] /\ (Attrs[s[i]].name # Attrs[s[j]].name \/ Attrs[s[i]].name = "")
Tag(as) == [comp : Comps, writing : Writings, attrs : {a \in Lists(as, MaxAttrs) : OnePer(a)}, slot : Slots, closing : Closings]
Sensible(t) == t.closing # "open" => t.slot = "none"

Init == /\ cfg = [x |-> 0]
        /\ \E t \in {x \in Tag(Attrs1) : Sensible(x)} :
             \/ tags = <<t>> /\ place = "beside"
             \/ /\ MaxTags = 2
                /\ \E u \in {x \in Tag(Attrs2) : Sensible(x)} : tags = <<t, u>>
                /\ place \in Places /\ (place \notin {"beside", "remark"} => t.closing = "open") /\ (place = "slotted" => t.slot # "none")
        /\ import \in Imports /\ version \in Versions
        /\ act = [op |-> "init"]
Next == UNCHANGED vars /\ act' = [op |-> "again"]

----------------------------------------------------------------------------
(* The text, one piece per line, so that every piece has a line of its own.   *)
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE " " \o Attrs[Head(s)].text \o Joined(Tail(s))
Name(t) == IF t.writing = "kebab" THEN Kebab[t.comp] ELSE t.comp
Opening(t) == "<" \o Name(t) \o Joined(t.attrs) \o (CASE t.closing = "self" -> " />" [] t.closing = "tight" -> "/>" [] OTHER -> ">")
Slot(t, inner) == IF t.slot = "none" THEN inner ELSE <<"<template " \o SlotText[t.slot] \o ">">> \o inner \o <<"</template>">>
Render(t, inner, after) == <<Opening(t)>> \o (IF t.closing # "open" THEN <<>> ELSE Slot(t, inner) \o after \o <<"</" \o Name(t) \o ">">>)
Script == IF import = "none" THEN <<>> ELSE <<"<script setup>", "const n = ref<VsFieldRef | null>(null)", "import { " \o import \o ", createVlossom } from 'vlossom'", "</script>">>
Lines == Script \o <<"<template>">> \o
         (CASE Len(tags) = 1 -> Render(tags[1], <<>>, <<>>)
            [] place = "beside" -> Render(tags[1], <<>>, <<>>) \o Render(tags[2], <<>>, <<>>)
            [] place = "remark" -> Render(tags[1], <<>>, <<>>) \o <<"<!-- a remark">> \o Render(tags[2], <<>>, <<>>) \o <<"-->">>
            [] place = "slotted" -> Render(tags[1], Render(tags[2], <<>>, <<>>), <<>>)
            [] OTHER -> Render(tags[1], <<>>, Render(tags[2], <<>>, <<>>))) \o <<"</template>">>

Base == Len(Script) + 2
TagLine(i) == IF i = 1 THEN Base
              ELSE CASE place = "beside" -> Base + Len(Render(tags[1], <<>>, <<>>))
                     [] place = "slotted" -> Base + 2
                     [] OTHER -> Base + (IF tags[1].slot = "none" THEN 1 ELSE 3)
\* the slot of a tag is opened on the line after the tag
SlotLine(i) == TagLine(i) + 1
\* the tags that are not commented out
Live == IF Len(tags) = 2 /\ place = "remark" THEN {1} ELSE DOMAIN tags

----------------------------------------------------------------------------
(* What is wrong, as a set of <<line, rule, which>>, each to be reported once. *)
ImportLine == 3
Occurs(c) == {TagLine(i) : i \in {j \in Live : tags[j].comp = c}} \cup (IF import = c THEN {ImportLine} ELSE {})
First(c) == IF import = c THEN ImportLine ELSE CHOOSE l \in Occurs(c) : \A m \in Occurs(c) : l <= m
Unknown == {<<0, "COMPONENT_EXISTS", c>> : c \in {x \in {"VsNowhere"} : Occurs(x) # {}}}
TooNew == IF version = "2.1.0" /\ Occurs("VsNewer") # {} THEN {<<First("VsNewer"), "VERSION_UNSUPPORTED", "VsNewer">>} ELSE {}
Rule(c, a) == CASE a.kind = "prop" /\ a.name \notin Props[c] -> "PROP_EXISTS"
                [] a.kind = "event" /\ a.name \notin Events[c] -> "EVENT_EXISTS"
                [] a.kind = "model" /\ (a.name \notin Props[c] \/ ("update:" \o a.name) \notin Events[c]) -> "VMODEL_SUPPORT"
                [] OTHER -> ""
Provided(t) == {Attrs[t.attrs[k]].name : k \in {j \in DOMAIN t.attrs : Attrs[t.attrs[j]].kind \in {"prop", "model"}}}
OfTag(i) == LET t == tags[i] IN IF t.comp \notin Known THEN {} ELSE
            {<<TagLine(i), Rule(t.comp, Attrs[t.attrs[k]]), k>> : k \in {j \in DOMAIN t.attrs : Rule(t.comp, Attrs[t.attrs[j]]) # ""}}
            \cup {<<TagLine(i), "PROP_REQUIRED", p>> : p \in Required[t.comp] \ Provided(t)}
            \cup (IF t.slot = "none" \/ SlotOf[t.slot] \in SlotNames[t.comp] THEN {} ELSE {<<SlotLine(i), "SLOT_EXISTS", t.slot>>})
Wrong == Unknown \cup TooNew \cup UNION {OfTag(i) : i \in Live}
Labels == {ToString(w[1]) \o " " \o w[2] : w \in Wrong}
Times(l) == Cardinality({w \in Wrong : ToString(w[1]) \o " " \o w[2] = l})

TypeOK == Len(tags) \in 1..MaxTags
\* correct templates exist in the explored set, and only those are valid
Clean == Wrong = {}

Obs == [issues |-> [l \in Labels |-> Times(l)], valid |-> Clean]
EmitNode == PrintT("N " \o ToJson([k |-> vars, o |-> Obs, c |-> [lines |-> Lines, version |-> version], i |-> TLCGet("level") = 1]))
EmitEdge == PrintT("E " \o ToJson([k |-> vars, a |-> act', t |-> vars']))
==============================================================================
