------------------------------- MODULE MC_Conv -------------------------------
(***************************************************************************)
(* All sequences of up to Steps conversions, starting from one set of      *)
(* credentials and one token with distinguishable components.              *)
(***************************************************************************)
EXTENDS Cred, Json

CONSTANT Steps

VARIABLES s, ev

vars == <<s, ev>>

Start ==
  [c1 |-> <<[id |-> B("i"), sec |-> B("s")]>>, c2 |-> <<>>,
   t1 |-> <<[cid |-> B("ci"), csec |-> B("cs"), tid |-> B("ti"), tsec |-> B("ts")]>>, t2 |-> <<>>]

Ops ==
  {[op |-> "join", c |-> c, t |-> t, to |-> "t2"] : c \in {"c1", "c2"}, t \in {"c1", "c2"}}
  \cup {[op |-> "copy", from |-> p[1], to |-> p[2]] : p \in {<<"c1", "c2">>, <<"c2", "c1">>, <<"t1", "t2">>, <<"t2", "t1">>}}
  \cup {[op |-> o, from |-> t, to |-> "c2"] : o \in {"client", "token"}, t \in {"t1", "t2"}}
  \cup {[op |-> o, from |-> "t1", to |-> "t2", tag |-> B("!")] : o \in {"map", "map_client", "map_token"}}
  \cup {[op |-> o, from |-> "t2", to |-> "t1", tag |-> B("?")] : o \in {"map_client", "map_token"}}
  \cup {[op |-> "map", from |-> "c1", to |-> "c2", tag |-> B("+")]}

Init == s = Start /\ ev = <<>>

Next ==
  \/ /\ Len(ev) < Steps
     /\ \E e \in Ops :
          /\ ConvEnabled(s, e)
          /\ s' = ConvApply(s, e)
          /\ ev' = Append(ev, e @@ [value |-> ConvValue(s, e), args |-> ConvArgs(s, e)])
  \/ Len(ev) = Steps /\ PrintT(ToJson([ev |-> ev])) /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

\* Client and token parts, identifiers and secrets keep to themselves: where a
\* text ends up says where it came from.
IdLike == {105}
SecLike == {115}
KindOf(x) == LET u == SelectSeq(x, LAMBDA b : b \in {105, 115}) IN u[Len(u)]
Inv ==
  \A r \in DOMAIN s : s[r] # <<>> =>
    IF IsCred(r) THEN KindOf(s[r][1].id) \in IdLike /\ KindOf(s[r][1].sec) \in SecLike
    ELSE /\ KindOf(s[r][1].cid) \in IdLike /\ KindOf(s[r][1].csec) \in SecLike
         /\ KindOf(s[r][1].tid) \in IdLike /\ KindOf(s[r][1].tsec) \in SecLike
=============================================================================
