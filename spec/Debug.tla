-------------------------------- MODULE Debug --------------------------------
(***************************************************************************)
(* What may be shown of a value without showing a secret: everything but   *)
(* the client secret and the token secret.  A value may be printed in any  *)
(* way that is a function of this.                                         *)
(***************************************************************************)
EXTENDS Session

Hidden == "hidden"

PublicCfg(cfg) ==
  [cfg EXCEPT !.csec = Hidden, !.token = IF @ = <<>> THEN <<>> ELSE <<@[1], Hidden>>]

\* An authorizer and its signer: the calls the signer got, without the secrets it was made with.
PublicSession(s) ==
  [s EXCEPT !.cfg = PublicCfg(@), !.calls = IF @ = <<>> THEN <<>> ELSE Tail(@)]

\* Does string p occur in s?
Within(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
=============================================================================
