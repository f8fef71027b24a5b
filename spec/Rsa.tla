-------------------------------- MODULE Rsa --------------------------------
(***************************************************************************)
(* RSASSA-PKCS1-v1_5 verification with SHA-1 (RFC 8017 section 8.2.2) on   *)
(* octet sequences, in plain TLA+: the signature representative is raised  *)
(* to the public exponent modulo n and compared with the encoded message.  *)
(* Numbers are big-endian octet strings of one common length k.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE Sha1
LOCAL INSTANCE SequencesExt

LOCAL Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Little-endian digits (possibly negative or large) to octets; the carry
\* out of the top is the last element.
LOCAL Norm(ds) ==
  LET r == FoldLeft(LAMBDA a, d : LET v == d + a[2] IN <<Append(a[1], v % 256), v \div 256>>,
                    <<<<>>, 0>>, ds)
  IN  Append(r[1], r[2])

LOCAL GeqLE(a, b) ==   \* little-endian, same length
  LET RECURSIVE G(_)
      G(i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE G(i - 1)
  IN  G(Len(a))

RECURSIVE RsaFix(_, _)
\* x: k octets and a carry; bring into 0..n-1 by adding or subtracting n.
RsaFix(x, n) ==
  LET k == Len(n)
      lo == SubSeq(x, 1, k)
      top == x[k + 1]
  IN  IF top < 0 THEN RsaFix(Norm([i \in 1..(k+1) |-> x[i] + (IF i <= k THEN n[i] ELSE 0)]), n)
      ELSE IF top > 0 \/ GeqLE(lo, n)
           THEN RsaFix(Norm([i \in 1..(k+1) |-> x[i] - (IF i <= k THEN n[i] ELSE 0)]), n)
           ELSE lo

\* (256*r + d*b) mod n for little-endian r, b < n.
LOCAL Shift(r, d, b, n) ==
  LET k  == Len(n)
      t2 == r[k] * 65536 + r[k-1] * 256 + r[k-2] + d * (b[k] * 256 + b[k-1])
      q  == t2 \div (n[k] * 256 + n[k-1])
      ds == [i \in 1..(k+1) |->
               (IF i > 1 THEN r[i-1] ELSE 0) + (IF i <= k THEN d * b[i] - q * n[i] ELSE 0)]
      x  == Norm(ds)
  IN  RsaFix([i \in 1..(k+1) |-> IF i = k + 1 THEN x[k+1] + 256 * x[k+2] ELSE x[i]], n)

LOCAL MulMod(a, b, n) ==
  FoldLeft(LAMBDA r, d : Shift(r, d, b, n), [i \in 1..Len(n) |-> 0], Rev(a))

\* s^e mod n for e = 3 or e = 65537 (little-endian).
LOCAL Pow(s, e, n) ==
  IF e = 3 THEN MulMod(MulMod(s, s, n), s, n)
  ELSE MulMod(FoldLeft(LAMBDA x, i : MulMod(x, x, n), s, [i \in 1..16 |-> i]), s, n)

LOCAL DigestInfo == <<48, 33, 48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0, 4, 20>>

Emsa(m, k) == <<0, 1>> \o [i \in 1..(k - 38) |-> 255] \o <<0>> \o DigestInfo \o SHA1(m)

RsaVerify(n, e, m, sig) ==
  /\ Len(sig) = Len(n)
  /\ ~GeqLE(Rev(sig), Rev(n))
  /\ Rev(Pow(Rev(sig), e, Rev(n))) = Emsa(m, Len(n))
=============================================================================
