------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* Which inputs the derive macro rejects, and where.                       *)
(*                                                                         *)
(* An item is [named, from, to, attrs, fields]: whether it is a struct     *)
(* with named fields, its first and last line, the attribute lists on it   *)
(* and its fields [ident, line, attrs].  An attribute list is [bad, line,  *)
(* metas]; a bad one does not even parse as a list.  A meta is [name,      *)
(* form, lit, text, line]: form is "word", "list" or "value", lit the kind *)
(* of value ("str", "bool", "path" or another) and text that of a string.  *)
(* Everything that can be at fault by itself has a line of its own.        *)
(***************************************************************************)
EXTENDS Octets
LOCAL INSTANCE SequencesExt

FieldAttrs == [skip |-> "word", encoded |-> "word", rename |-> "str", option |-> "bool", fmt |-> "path", skip_if |-> "path"]
ItemAttrs == ("crate" :> "path")

\* One meta by itself.
Good(m, known) ==
  /\ m.name \in DOMAIN known
  /\ IF known[m.name] = "word" THEN m.form = "word"
     ELSE m.form = "value" /\ m.lit = known[m.name]
  /\ (m.name = "rename" /\ m.form = "value" /\ m.lit = "str") => UriSafe(m.text)

Metas(lists) == FlattenSeq([i \in DOMAIN lists |-> IF lists[i].bad THEN <<>> ELSE lists[i].metas])

\* Indices of metas that have to be reported, and of those that may be.
Faulty(ms, known) ==
  {i \in DOMAIN ms : \/ ~Good(ms[i], known)
                     \/ \E j \in 1..(i - 1) : ms[j].name = ms[i].name /\ Good(ms[j], known)}
Suspect(ms, known) ==
  {i \in DOMAIN ms : \/ ~Good(ms[i], known)
                     \/ \E j \in 1..(i - 1) : ms[j].name = ms[i].name}

\* ------------------------------------------------------------------ names ----
RawMark == B("r#")
Unraw(t) == IF Len(t) > 2 /\ SubSeq(t, 1, 2) = RawMark THEN SubSeq(t, 3, Len(t)) ELSE t

Renames(f) == SelectSeq(Metas(f.attrs), LAMBDA m : m.name = "rename")
\* Whether the field is certainly skipped, and whether it certainly is not.  (A skipped one is no parameter.)
Skipped(f) == \E i \in DOMAIN Metas(f.attrs) : Metas(f.attrs)[i].name = "skip" /\ Good(Metas(f.attrs)[i], FieldAttrs)
Kept(f) == \A i \in DOMAIN Metas(f.attrs) : Metas(f.attrs)[i].name # "skip"
\* A name is certain unless something is wrong about how it is given.
Certain(f) ==
  /\ \A i \in DOMAIN f.attrs : ~f.attrs[i].bad
  /\ Len(Renames(f)) <= 1
  /\ \A i \in DOMAIN Renames(f) : Good(Renames(f)[i], FieldAttrs)
NameOf(f) == IF Renames(f) = <<>> THEN Unraw(f.ident) ELSE Renames(f)[1].text
NameLine(f) == IF Renames(f) = <<>> THEN f.line ELSE Renames(f)[1].line
Possible(f) == {Unraw(f.ident)} \cup {Renames(f)[i].text : i \in DOMAIN Renames(f)}

\* --------------------------------------------------------------- problems ----
BadLists(lists) == {lists[i].line : i \in {j \in DOMAIN lists : lists[j].bad}}

RequiredLines(it) ==
  LET field(f) ==
        LET ms == Metas(f.attrs)
        IN  {ms[i].line : i \in Faulty(ms, FieldAttrs)} \cup BadLists(f.attrs)
            \cup (IF Certain(f) /\ Kept(f) /\ ~UriSafe(NameOf(f)) THEN {NameLine(f)} ELSE {})
      own == Metas(it.attrs)
  IN  UNION {field(it.fields[i]) : i \in DOMAIN it.fields}
      \cup {own[i].line : i \in Faulty(own, ItemAttrs)} \cup BadLists(it.attrs)

AllowedLines(it) ==
  LET fs == it.fields
      field(i) ==
        LET f == fs[i]
            ms == Metas(f.attrs)
        IN  {ms[j].line : j \in Suspect(ms, FieldAttrs)} \cup BadLists(f.attrs)
            \cup (IF ~Skipped(f) /\ (~Certain(f) \/ ~UriSafe(NameOf(f))) THEN {f.line} ELSE {})
            \cup (IF ~Skipped(f) /\ \E j \in DOMAIN fs \ {i} : ~Skipped(fs[j]) /\ Possible(fs[j]) \cap Possible(f) # {}
                  THEN {f.line} \cup {Renames(f)[j].line : j \in DOMAIN Renames(f)} ELSE {})
      own == Metas(it.attrs)
  IN  UNION {field(i) : i \in DOMAIN fs}
      \cup {own[i].line : i \in Suspect(own, ItemAttrs)} \cup BadLists(it.attrs)

\* Fields of the same certain name: all but one of them are reported.
Groups(it) ==
  LET fs == it.fields
      certain == {i \in DOMAIN fs : Certain(fs[i]) /\ Kept(fs[i])}
      class(i) == {j \in certain : NameOf(fs[j]) = NameOf(fs[i])}
  IN  {g \in {class(i) : i \in certain} : Cardinality(g) > 1}

Wrong(it) == ~it.named \/ RequiredLines(it) # {} \/ Groups(it) # {}

MayReport(it, line) == IF it.named THEN line \in AllowedLines(it) ELSE line \in it.from..it.to
MustHaveReported(it, lines) ==
  IF ~it.named THEN lines # {}
  ELSE /\ RequiredLines(it) \subseteq lines
       /\ \A g \in Groups(it) :
            Cardinality({i \in g : NameLine(it.fields[i]) \in lines}) >= Cardinality(g) - 1

\* ------------------------------------------------------------------ types ----
\* For an item that is otherwise right: the lines of a field are from..to, its written type is ty = [path, args], which is an
\* option or not (opt) of something of a base type.  fmt and skip_if say what the functions given take: [] without one, else
\* "any", "shown" (whatever can be displayed), a base type, "option" (any option), or "bad" (no function of that shape).
WrittenOption(ty) == ty.path = <<"Option">> /\ ty.args = 1
OptionMeta(f) == SelectSeq(Metas(f.attrs), LAMBDA m : m.name = "option")
Treated(f) == IF OptionMeta(f) = <<>> THEN WrittenOption(f.ty) ELSE OptionMeta(f)[1].text = B("true")

Shown(base) == base \notin {"opaque", "unit"}
Takes(fn, base, whole) ==   \* whole: an option as such
  CASE fn = "any" -> TRUE
    [] fn = "shown" -> ~whole /\ Shown(base)
    [] fn = "option" -> whole
    [] fn = "bad" -> FALSE
    [] fn = "str" -> ~whole /\ base \in {"str", "String"}     \* (a String derefs to a str)
    [] OTHER -> ~whole /\ fn = base

IllTyped(f) ==
  /\ ~Skipped(f)
  /\ LET whole == f.opt /\ ~Treated(f)
     IN  \/ Treated(f) /\ ~f.opt
         \/ f.fmt = <<>> /\ (whole \/ ~Shown(f.base))
         \/ f.fmt # <<>> /\ ~Takes(f.fmt[1], f.base, whole)
         \/ f.skip_if # <<>> /\ ~Takes(f.skip_if[1], f.base, whole)

\* (The compiler may mention the derivation, which is the line before, besides the field.)
MayReportType(it, line) ==
  \E i \in DOMAIN it.fields : IllTyped(it.fields[i]) /\ (line = it.from - 1 \/ line \in it.fields[i].from..it.fields[i].to)
MustHaveReportedTypes(it, lines) ==
  \A i \in DOMAIN it.fields : IllTyped(it.fields[i]) => (it.fields[i].from..it.fields[i].to) \cap lines # {}
=============================================================================
