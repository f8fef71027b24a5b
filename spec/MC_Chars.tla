------------------------------ MODULE MC_Chars ------------------------------
(***************************************************************************)
(* An encoder fed by a formatter: at each step the formatter writes one    *)
(* more character of the piece it is writing, or ends that piece, which    *)
(* goes through the encoder; empty pieces included.  What has come out is  *)
(* always the encoding of what has gone in, and decodes to it.  Every way  *)
(* of writing every text with up to Steps steps is printed and replayed.   *)
(***************************************************************************)
EXTENDS Octets, Json

CONSTANT Steps

VARIABLES pieces, cur, out, n, sealed

vars == <<pieces, cur, out, n, sealed>>

\* A bare octet, the separator, the escape, an unreserved mark, and characters of two and four octets.
Chars == {B("a"), B("&"), B("%"), B("~"), <<195, 169>>, <<240, 159, 152, 128>>}

Init == pieces = <<>> /\ cur = <<>> /\ out = <<>> /\ n = 0 /\ sealed = FALSE

Grow == \E c \in Chars : cur' = cur \o c /\ UNCHANGED <<pieces, out>>
EndPiece == pieces' = Append(pieces, cur) /\ out' = out \o Enc(cur) /\ cur' = <<>>
Step == ~sealed /\ n < Steps /\ (Grow \/ EndPiece) /\ n' = n + 1 /\ UNCHANGED sealed
Seal == ~sealed /\ cur = <<>> /\ sealed' = TRUE /\ UNCHANGED <<pieces, cur, out, n>>
Done == sealed /\ PrintT(ToJson([pieces |-> pieces, once |-> out, twice |-> Enc(out)])) /\ UNCHANGED vars

Next == Step \/ Seal \/ Done

Spec == Init /\ [][Next]_vars

Inv ==
  /\ out = Enc(Cat(pieces))
  /\ Dec(out) = Cat(pieces)
  /\ Dec(Dec(Enc(out))) = Cat(pieces)
  /\ WellEncoded(out)
=============================================================================
