------------------------------ MODULE ParamList ------------------------------
(***************************************************************************)
(* Parameter lists: a sequence of pairs [k, v] kept in the order of RFC    *)
(* 5849 section 3.4.1.3.2, by name and then by percent-encoded value.      *)
(***************************************************************************)
EXTENDS Octets
LOCAL INSTANCE SequencesExt
INSTANCE Bags

EncPair(p) == <<p.k, Enc(p.v)>>
Before(p, q) == PairLt(EncPair(p), EncPair(q))
InOrder(l) == \A i \in 1..(Len(l) - 1) : ~Before(l[i + 1], l[i])

\* The one arrangement that is in order (pairs of equal order are equal).
Arranged(l) == TLCEval(SortSeq(l, Before))

BagOf(l) == FoldLeft(LAMBDA b, p : b (+) SetToBag({p}), EmptyBag, l)
ArrangedOk(l) == InOrder(Arranged(l)) /\ BagOf(Arranged(l)) = BagOf(l)

\* The operations: the new list, or [] if there is none.
After(list, op, arg) ==
  CASE op \in {"new", "from", "collect"} -> <<Arranged(arg)>>
    [] op = "default" -> <<<<>>>>
    [] op = "from_sorted" -> IF InOrder(arg) THEN <<arg>> ELSE <<>>
    [] op = "extend" -> <<Arranged(list \o arg)>>
    \* Taken apart, changed and put together again.
    [] op = "renew" -> <<Arranged(list \o arg)>>
    [] op = "resorted" -> IF InOrder(list \o arg) THEN <<list \o arg>> ELSE <<>>
    [] op = "look" -> <<list>>
=============================================================================
