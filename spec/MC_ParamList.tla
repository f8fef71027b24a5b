---------------------------- MODULE MC_ParamList ----------------------------
(***************************************************************************)
(* All histories of putting up to MaxLen pairs into a list, one by one or  *)
(* several at once.  Whatever the history, the list is the arrangement of  *)
(* everything put in.  Every history is printed and replayed.              *)
(***************************************************************************)
EXTENDS ParamList, Json

CONSTANT MaxLen

VARIABLES parts, list

vars == <<parts, list>>

\* Values whose order changes by being encoded, and prefixes of each other.
Vals == {<<>>, B("a"), B("%"), B("~"), <<195, 169>>, B("%7E")}
Pairs == {[k |-> k, v |-> v] : k \in {B("k"), B("k-")}, v \in Vals}

Total == Len(Cat(parts))

Init == parts = <<>> /\ list = <<>>

Lists(n) == [1..n -> Pairs]

Put ==
  \E n \in 0..(MaxLen - Total) :
    /\ n = 0 => parts = <<>>
    /\ \E l \in Lists(n) :
         /\ parts' = Append(parts, l)
         /\ list' = After(list, IF parts = <<>> THEN "new" ELSE "extend", l)[1]

Next ==
  \/ Put
  \/ /\ parts # <<>>
     /\ PrintT(ToJson([parts |-> parts, list |-> list]))
     /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

Inv ==
  /\ InOrder(list)
  /\ BagOf(list) = BagOf(Cat(parts))
  /\ list = Arranged(Cat(parts))
=============================================================================
