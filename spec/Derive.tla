------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The request that the derive macro makes of a struct.                    *)
(*                                                                         *)
(* A field is [ident, attrs, ty, val]:                                     *)
(*   ident  its name as written, r# included                               *)
(*   attrs  its attribute lists in the order written, each a sequence of   *)
(*          [name, arg]; arg is [] for words, [octets] for rename,         *)
(*          [TRUE/FALSE] for option, and [name of a function] for fmt and  *)
(*          skip_if                                                        *)
(*   ty     [path, args]: the type as written, its path as a sequence of   *)
(*          segments (a leading :: is an empty first one), and how many    *)
(*          generic arguments the last one has                             *)
(*   val    [none, text]: whether the value is an absent one, and          *)
(*          otherwise the text that it, or what it contains, displays      *)
(***************************************************************************)
EXTENDS Requests
LOCAL INSTANCE SequencesExt

\* ----------------------------------------------------------- attributes ----
Metas(f) == FlattenSeq(f.attrs)
Has(f, nm) == \E i \in DOMAIN Metas(f) : Metas(f)[i].name = nm
ArgOf(f, nm) == LET m == Metas(f) IN m[CHOOSE i \in DOMAIN m : m[i].name = nm].arg[1]

RawMark == B("r#")
Unraw(t) == IF Len(t) > 2 /\ SubSeq(t, 1, 2) = RawMark THEN SubSeq(t, 3, Len(t)) ELSE t

Key(f) == IF Has(f, "rename") THEN ArgOf(f, "rename") ELSE Unraw(f.ident)

\* Optionality follows from the written type unless overridden.
WrittenOption(ty) == ty.path = <<"Option">> /\ ty.args = 1
Optional(f) == IF Has(f, "option") THEN ArgOf(f, "option") ELSE WrittenOption(f.ty)

\* ------------------------------------------------- functions of the user ----
\* Those the harness offers, by name: formatters and predicates of a text.
Hex == B("0123456789abcdef")
RECURSIVE Decimal(_), HexOf(_)
Decimal(t) == IF t = <<>> THEN 0 ELSE 10 * Decimal(Front(t)) + (Last(t) - 48)
HexOf(n) == IF n < 16 THEN <<Hex[n + 1]>> ELSE Append(HexOf(n \div 16), Hex[(n % 16) + 1])

Format(fn, t) ==
  CASE fn = "plain"   -> t
    [] fn = "bracket" -> B("[") \o t \o B("]")
    [] fn = "twice"   -> t \o t
    [] fn = "silent"  -> <<>>
    [] fn = "pieces"  -> t
    [] fn = "amp"     -> B("&") \o t \o B("=%26")
    [] fn = "hex"     -> HexOf(Decimal(t))
    [] fn = "const"   -> B("const/")
    \* One for an optional value as a whole.
    [] fn = "optional" -> B("?") \o t

Predicate(fn, none, t) ==
  CASE fn = "always"  -> TRUE
    [] fn = "never"   -> FALSE
    [] fn = "empty"   -> t = <<>>
    [] fn = "long"    -> Len(t) > 3
    [] fn = "zero"    -> t = B("0")
    [] fn = "none"    -> none

\* -------------------------------------------------------------- the pairs ----
Text(f) == IF Has(f, "fmt") THEN Format(ArgOf(f, "fmt"), f.val.text) ELSE f.val.text

Fed(f) ==
  /\ ~Has(f, "skip")
  /\ Optional(f) => ~f.val.none
  /\ Has(f, "skip_if") => ~Predicate(ArgOf(f, "skip_if"), f.val.none, f.val.text)

Derived(fields) ==
  LET fed == SelectSeq(fields, Fed)
      ps == [i \in 1..Len(fed) |-> [k |-> Key(fed[i]), v |-> Text(fed[i]), enc |-> Has(fed[i], "encoded")]]
  IN  SortSeq(ps, LAMBDA p, q : Lt(p.k, q.k))

DerivedRequest(fields, wrap) == [kind |-> "vec", wrap |-> wrap, params |-> TLCEval(Derived(fields))]
=============================================================================
