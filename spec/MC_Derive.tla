----------------------------- MODULE MC_Derive -----------------------------
(***************************************************************************)
(* Every combination of attributes, kinds of types and values on one       *)
(* field (between two plain ones).  The state machine applies the          *)
(* attributes one after the other, in every order, to what is known of the *)
(* parameter so far; the result must not depend on the order and must be   *)
(* what Derive says.  Every combination is printed and replayed with a     *)
(* struct of that shape.                                                   *)
(***************************************************************************)
EXTENDS Derive, Json

VARIABLES type, field, left, par

vars == <<type, field, left, par>>

Word(nm) == <<[name |-> nm, arg |-> <<>>]>>
With(nm, a) == <<[name |-> nm, arg |-> <<a>>]>>

\* Types: a plain text, Option, an alias of it, and a type of that name which is something else.
Types ==
  [plain |-> [path |-> <<"String">>, args |-> 0],
   option |-> [path |-> <<"Option">>, args |-> 1],
   alias |-> [path |-> <<"Maybe">>, args |-> 1],
   full |-> [path |-> <<"", "std", "option", "Option">>, args |-> 1],
   other |-> [path |-> <<"Option">>, args |-> 1]]

IsOption(t) == t \in {"option", "alias", "full"}

Values(t) ==
  {[none |-> FALSE, text |-> <<>>], [none |-> FALSE, text |-> B("a&")], [none |-> FALSE, text |-> B("long")]}
  \cup (IF IsOption(t) THEN {[none |-> TRUE, text |-> <<>>]} ELSE {})

OneOf(S) == {<<>>} \cup S
Fields ==
  {f \in [t : DOMAIN Types, skip : OneOf({Word("skip")}), encoded : OneOf({Word("encoded")}),
          rename : OneOf({With("rename", B("m~"))}), option : OneOf({With("option", TRUE), With("option", FALSE)}),
          fmt : OneOf({With("fmt", "bracket"), With("fmt", "optional")}),
          skip_if : OneOf({With("skip_if", p) : p \in {"always", "never", "empty", "long", "none"}})] :
     LET treated == IF f.option # <<>> THEN f.option[1].arg[1] ELSE WrittenOption(Types[f.t])
     IN  \* What compiles: an optional treatment needs an Option, and the other way round a whole Option
         \* needs functions for it.
         /\ treated => IsOption(f.t)
         /\ ~treated /\ IsOption(f.t) => /\ f.fmt = With("fmt", "optional") \/ f.skip # <<>>
                                        /\ f.skip_if \in OneOf({With("skip_if", p) : p \in {"always", "never", "none"}})
         /\ treated \/ ~IsOption(f.t) => /\ f.fmt # With("fmt", "optional")
                                        /\ f.skip_if # With("skip_if", "none")}

Described(f, v) ==
  [ident |-> B("m"), ty |-> Types[f.t], val |-> v,
   attrs |-> <<f.skip, f.encoded \o f.rename, f.option, f.fmt \o f.skip_if>>]

\* Before any attribute.
Start(f) == [k |-> B("m"), enc |-> FALSE, skip |-> FALSE, opt |-> WrittenOption(f.ty), fmt |-> <<>>, cond |-> <<>>]

Init ==
  \E f \in Fields : \E v \in Values(f.t) :
    /\ type = f.t
    /\ field = Described(f, v)
    /\ left = {Metas(Described(f, v))[i] : i \in DOMAIN Metas(Described(f, v))}
    /\ par = Start(Described(f, v))

Apply(m) ==
  /\ left' = left \ {m}
  /\ par' = CASE m.name = "skip" -> [par EXCEPT !.skip = TRUE]
              [] m.name = "encoded" -> [par EXCEPT !.enc = TRUE]
              [] m.name = "rename" -> [par EXCEPT !.k = m.arg[1]]
              [] m.name = "option" -> [par EXCEPT !.opt = m.arg[1]]
              [] m.name = "fmt" -> [par EXCEPT !.fmt = m.arg]
              [] m.name = "skip_if" -> [par EXCEPT !.cond = m.arg]
  /\ UNCHANGED <<type, field>>

\* What comes of the parameter.
Result ==
  LET v == field.val
  IN  IF par.skip THEN <<>>
      ELSE IF par.opt /\ v.none THEN <<>>
      ELSE IF par.cond # <<>> /\ Predicate(par.cond[1], v.none, v.text) THEN <<>>
      ELSE <<[k |-> par.k, v |-> IF par.fmt = <<>> THEN v.text ELSE Format(par.fmt[1], v.text), enc |-> par.enc]>>

Finish ==
  /\ left = {}
  /\ PrintT(ToJson([type |-> type, field |-> field, result |-> Result]))
  /\ UNCHANGED vars

Next == (\E m \in left : Apply(m)) \/ Finish

Spec == Init /\ [][Next]_vars

Inv == left = {} => Result = Derived(<<field>>)
=============================================================================
