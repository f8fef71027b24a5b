------------------------------ MODULE MC_Serde ------------------------------
(***************************************************************************)
(* Reading all maps of up to MaxLen fields over the two names, their       *)
(* neighbours and values that are no text.  A map is accepted exactly when *)
(* both fields occur once, and what was serialized comes back.             *)
(***************************************************************************)
EXTENDS Cred, Json

CONSTANT MaxLen

VARIABLES fields, reader

vars == <<fields, reader>>

Names == {IdName, SecName, B("oauth_token_"), B("oauth_callback_confirmed")}
Vals == {<<B("a")>>, <<B("b")>>, <<<<>>>>, <<>>}

Init == fields = <<>> /\ reader = DeInit

Read == Len(fields) < MaxLen /\ \E k \in Names, v \in Vals :
          LET f == [k |-> k, v |-> v] IN fields' = Append(fields, f) /\ reader' = DeStep(reader, f)

Next == Read \/ (PrintT(ToJson([fields |-> fields, cred |-> DeEnd(reader)])) /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

Texts == {<<>>, B("a"), B("b"), B("oauth_token"), B("&=%")}

Inv ==
  /\ DeEnd(reader) = De(fields)
  /\ De(fields) = DeMeaning(fields)
  /\ De([i \in 1..Len(fields) |-> fields[Len(fields) + 1 - i]]) = De(fields)
ASSUME \A a, b \in Texts : LET c == [id |-> a, sec |-> b] IN De(Ser(c)) = <<c>>
=============================================================================
