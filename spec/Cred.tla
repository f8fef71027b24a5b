-------------------------------- MODULE Cred --------------------------------
(***************************************************************************)
(* Credentials [id, sec], tokens [cid, csec, tid, tsec], what they are     *)
(* serialized to and what is deserialized to them, and conversions.        *)
(***************************************************************************)
EXTENDS Octets
LOCAL INSTANCE SequencesExt

IdName == B("oauth_token")
SecName == B("oauth_token_secret")

\* -------------------------------------------------------- serialization ----
Ser(c) == <<[k |-> IdName, v |-> <<c.id>>], [k |-> SecName, v |-> <<c.sec>>]>>

\* Reading a map field by field [k, v], v being <<text>>, or <<>> for a value that is no text.
\* The reader's state: what it has read of each field, or that it has given up.
DeInit == [id |-> <<>>, sec |-> <<>>, bad |-> FALSE]
DeStep(s, f) ==
  IF s.bad THEN s
  ELSE IF f.k = IdName THEN IF s.id # <<>> \/ f.v = <<>> THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.id = f.v]
  ELSE IF f.k = SecName THEN IF s.sec # <<>> \/ f.v = <<>> THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.sec = f.v]
  ELSE s
DeEnd(s) == IF s.bad \/ s.id = <<>> \/ s.sec = <<>> THEN <<>> ELSE <<[id |-> s.id[1], sec |-> s.sec[1]]>>
De(fields) == DeEnd(FoldLeft(DeStep, DeInit, fields))

\* What that has to amount to.
Of(fields, name) == SelectSeq(fields, LAMBDA f : f.k = name)
DeMeaning(fields) ==
  LET i == Of(fields, IdName)
      s == Of(fields, SecName)
  IN  IF Len(i) = 1 /\ Len(s) = 1 /\ i[1].v # <<>> /\ s[1].v # <<>> THEN <<[id |-> i[1].v[1], sec |-> s[1].v[1]]>> ELSE <<>>

\* ---------------------------------------------------------- conversions ----
\* Registers c1, c2 hold credentials and t1, t2 tokens, each <<>> or <<value>>.
ConvInit == [c1 |-> <<>>, c2 |-> <<>>, t1 |-> <<>>, t2 |-> <<>>]

IsCred(r) == r \in {"c1", "c2"}

\* The function given to the maps appends a tag.
Mapped(x, tag) == x \o tag

ConvEnabled(s, e) ==
  CASE e.op \in {"new", "parts"} -> TRUE
    [] e.op = "join" -> s[e.c] # <<>> /\ s[e.t] # <<>>
    [] OTHER -> s[e.from] # <<>>

\* The value an event leaves in register e.to.
ConvValue(s, e) ==
  CASE e.op = "new" -> [id |-> e.id, sec |-> e.sec]
    [] e.op = "parts" -> [cid |-> e.cid, csec |-> e.csec, tid |-> e.tid, tsec |-> e.tsec]
    [] e.op = "join" -> [cid |-> s[e.c][1].id, csec |-> s[e.c][1].sec, tid |-> s[e.t][1].id, tsec |-> s[e.t][1].sec]
    [] e.op = "copy" -> s[e.from][1]
    [] e.op = "client" -> [id |-> s[e.from][1].cid, sec |-> s[e.from][1].csec]
    [] e.op = "token" -> [id |-> s[e.from][1].tid, sec |-> s[e.from][1].tsec]
    [] e.op = "map" ->
         LET x == s[e.from][1]
         IN  IF IsCred(e.from) THEN [id |-> Mapped(x.id, e.tag), sec |-> Mapped(x.sec, e.tag)]
             ELSE [cid |-> Mapped(x.cid, e.tag), csec |-> Mapped(x.csec, e.tag), tid |-> Mapped(x.tid, e.tag), tsec |-> Mapped(x.tsec, e.tag)]
    [] e.op = "map_client" ->
         LET x == s[e.from][1] IN [x EXCEPT !.cid = Mapped(@, e.tag), !.csec = Mapped(@, e.tag)]
    [] e.op = "map_token" ->
         LET x == s[e.from][1] IN [x EXCEPT !.tid = Mapped(@, e.tag), !.tsec = Mapped(@, e.tag)]

\* What the mapping function is applied to, in some order.
ConvArgs(s, e) ==
  LET x == s[e.from][1]
  IN  CASE e.op = "map" -> IF IsCred(e.from) THEN <<x.id, x.sec>> ELSE <<x.cid, x.csec, x.tid, x.tsec>>
        [] e.op = "map_client" -> <<x.cid, x.csec>>
        [] e.op = "map_token" -> <<x.tid, x.tsec>>
        [] OTHER -> <<>>

ConvApply(s, e) == [s EXCEPT ![e.to] = <<ConvValue(s, e)>>]

BagOf(seq) == [x \in {seq[i] : i \in DOMAIN seq} |-> Cardinality({i \in DOMAIN seq : seq[i] = x})]
=============================================================================
