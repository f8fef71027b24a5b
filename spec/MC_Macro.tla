------------------------------ MODULE MC_Macro ------------------------------
(***************************************************************************)
(* Every sequence of up to MaxLen metas of a catalogue on one field next   *)
(* to another.  The state machine reads them one by one, as a macro would, *)
(* noting problems; what it has reported in the end must satisfy Macro.    *)
(* Every sequence is printed and given to the real macro.                  *)
(***************************************************************************)
EXTENDS Macro, Json

CONSTANT MaxLen

VARIABLES metas, at, have, rename, reported

vars == <<metas, at, have, rename, reported>>

M(nm, form, l, t) == [name |-> nm, form |-> form, lit |-> l, text |-> t]
Catalogue ==
  TLCEval({M("skip", "word", "", <<>>), M("skip", "value", "bool", <<>>), M("encoded", "word", "", <<>>),
   M("encoded", "list", "", <<>>), M("rename", "value", "str", B("g-1")), M("rename", "value", "str", B("other")),
   M("rename", "value", "str", B("a b")), M("rename", "value", "path", <<>>), M("rename", "word", "", <<>>),
   M("option", "value", "bool", <<>>), M("option", "word", "", <<>>), M("option", "value", "str", B("x")),
   M("fmt", "value", "path", <<>>), M("fmt", "value", "str", B("x")), M("fmt", "list", "", <<>>),
   M("skip_if", "value", "path", <<>>), M("skip_if", "value", "bool", <<>>), M("skip_if", "word", "", <<>>),
   M("unknown", "word", "", <<>>), M("a::b", "value", "path", <<>>)})

Placed(ms) == [i \in DOMAIN ms |-> [name |-> ms[i].name, form |-> ms[i].form, lit |-> ms[i].lit, text |-> ms[i].text, line |-> i]]

Init ==
  /\ metas \in UNION {[1..n -> Catalogue] : n \in 0..MaxLen}
  /\ at = 1 /\ have = {} /\ rename = <<>> /\ reported = {}

Read ==
  /\ at <= Len(metas)
  /\ at' = at + 1
  /\ UNCHANGED metas
  /\ LET m == metas[at]
         bad == ~Good(m, FieldAttrs) \/ m.name \in have
     IN  /\ reported' = IF bad THEN reported \cup {at} ELSE reported
         /\ have' = IF bad THEN have ELSE have \cup {m.name}
         /\ rename' = IF ~bad /\ m.name = "rename" THEN <<m.text, at>> ELSE rename

\* The second field is called other: a clash of names is found at the end.
Item ==
  [named |-> TRUE, from |-> 0, to |-> 12, attrs |-> <<>>,
   fields |-> <<[ident |-> B("g"), line |-> 10, attrs |-> <<[bad |-> FALSE, line |-> 9, metas |-> Placed(metas)]>>],
                [ident |-> B("other"), line |-> 11, attrs |-> <<>>]>>]

AllReported ==
  reported \cup (IF rename # <<>> /\ "skip" \notin have THEN IF rename[1] = B("other") THEN {11} ELSE {} ELSE {})

Finish ==
  /\ at > Len(metas)
  /\ PrintT(ToJson([metas |-> metas]))
  /\ UNCHANGED vars

Next == Read \/ Finish

Spec == Init /\ [][Next]_vars

Inv ==
  at > Len(metas) => /\ \A l \in AllReported : MayReport(Item, l)
                     /\ MustHaveReported(Item, AllReported)
                     /\ (Wrong(Item) <=> AllReported # {})
=============================================================================
