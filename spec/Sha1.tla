-------------------------------- MODULE Sha1 --------------------------------
(***************************************************************************)
(* SHA-1 (FIPS 180-4), HMAC-SHA1 (RFC 2104) and Base64 (RFC 4648) over     *)
(* octet sequences, in plain TLA+.  A 32-bit word is a pair of 16-bit      *)
(* halves because TLC's integers are signed 32-bit ones.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

LOCAL Pow2 == [i \in 0..16 |-> 2^i]

LOCAL WAdd(a, b) ==
  LET lo == a[2] + b[2]
  IN  <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
LOCAL WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
LOCAL WNot(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL RotlSmall(a, n) ==      \* 0 < n < 16
  << ((a[1] * Pow2[n]) % 65536) + (a[2] \div Pow2[16 - n]),
     ((a[2] * Pow2[n]) % 65536) + (a[1] \div Pow2[16 - n]) >>
LOCAL Rotl1(a)  == RotlSmall(a, 1)
LOCAL Rotl5(a)  == RotlSmall(a, 5)
LOCAL Rotl30(a) == RotlSmall(<<a[2], a[1]>>, 14)

LOCAL K == << <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>> >>
LOCAL H0 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>

LOCAL F(t, b, c, d) ==
  CASE t \in 0..19  -> WOr(WAnd(b, c), WAnd(WNot(b), d))
    [] t \in 40..59 -> WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d))
    [] OTHER        -> WXor(WXor(b, c), d)

LOCAL Schedule(m, off) ==
  FoldLeft(LAMBDA w, t : Append(w, Rotl1(WXor(WXor(w[t-3], w[t-8]), WXor(w[t-14], w[t-16])))),
           [t \in 1..16 |-> << m[off + 4*t - 3] * 256 + m[off + 4*t - 2],
                               m[off + 4*t - 1] * 256 + m[off + 4*t] >>],
           [i \in 1..64 |-> i + 16])

LOCAL Rounds == [t \in 1..80 |-> t]

LOCAL Block(h, m, off) ==
  LET w == Schedule(m, off)
      r == FoldLeft(LAMBDA s, t :
                      << WAdd(WAdd(WAdd(Rotl5(s[1]), F(t - 1, s[2], s[3], s[4])), WAdd(s[5], w[t])),
                              K[((t - 1) \div 20) + 1]),
                         s[1], Rotl30(s[2]), s[3], s[4] >>,
                    h, Rounds)
  IN  << WAdd(h[1], r[1]), WAdd(h[2], r[2]), WAdd(h[3], r[3]), WAdd(h[4], r[4]), WAdd(h[5], r[5]) >>

LOCAL Zeros(n) == [i \in 1..n |-> 0]

LOCAL Pad(m) ==
  LET n == Len(m)
      z == (119 - (n % 64)) % 64
      bits == n * 8
  IN  m \o <<128>> \o Zeros(z) \o
      <<0, 0, 0, 0, (bits \div 16777216) % 256, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>

SHA1(m) ==
  LET p == Pad(m)
      h == FoldLeft(LAMBDA s, k : Block(s, p, 64 * (k - 1)), H0, [k \in 1..(Len(p) \div 64) |-> k])
      oct(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
  IN  oct(h[1]) \o oct(h[2]) \o oct(h[3]) \o oct(h[4]) \o oct(h[5])

HMAC(key, m) ==
  LET k0 == IF Len(key) > 64 THEN SHA1(key) ELSE key
      k  == k0 \o Zeros(64 - Len(k0))
      x(c) == [i \in 1..64 |-> k[i] ^^ c]
  IN  SHA1(x(92) \o SHA1(x(54) \o m))

LOCAL B64Digit ==   \* A-Z a-z 0-9 + /
  [v \in 0..63 |-> CASE v < 26 -> 65 + v [] v \in 26..51 -> 71 + v
                     [] v \in 52..61 -> v - 4 [] v = 62 -> 43 [] OTHER -> 47]

Base64(m) ==
  LET n == Len(m)
      at(i) == IF i <= n THEN m[i] ELSE 0
      group(g) ==
        LET a == at(3*g - 2)  b == at(3*g - 1)  c == at(3*g)
        IN  << B64Digit[a \div 4], B64Digit[(a % 4) * 16 + (b \div 16)],
               IF 3*g - 1 <= n THEN B64Digit[(b % 16) * 4 + (c \div 64)] ELSE 61,
               IF 3*g <= n THEN B64Digit[c % 64] ELSE 61 >>
  IN  FoldLeft(LAMBDA s, g : s \o group(g), <<>>, [g \in 1..((n + 2) \div 3) |-> g])

\* Decoding of canonical Base64 text; <<>> for anything else (callers that
\* care re-encode and compare).
LOCAL B64Val ==
  [b \in 0..255 |-> CASE b \in 65..90 -> b - 65 [] b \in 97..122 -> b - 71
                     [] b \in 48..57 -> b + 4 [] b = 43 -> 62 [] b = 47 -> 63 [] OTHER -> 0]
UnBase64(t) ==
  IF t = <<>> \/ Len(t) % 4 # 0 THEN <<>>
  ELSE LET n == Len(t)
           pad == IF t[n] # 61 THEN 0 ELSE IF t[n-1] # 61 THEN 1 ELSE 2
           v(i) == B64Val[t[i]]
           group(g) == << v(4*g-3) * 4 + (v(4*g-2) \div 16),
                          (v(4*g-2) % 16) * 16 + (v(4*g-1) \div 4),
                          (v(4*g-1) % 4) * 64 + v(4*g) >>
           all == FoldLeft(LAMBDA s, g : s \o group(g), <<>>, [g \in 1..(n \div 4) |-> g])
       IN  SubSeq(all, 1, Len(all) - pad)
=============================================================================
