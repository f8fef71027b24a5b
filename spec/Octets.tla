------------------------------- MODULE Octets -------------------------------
(***************************************************************************)
(* Texts as sequences of octets (their UTF-8 encoding), percent-encoding   *)
(* of RFC 5849 section 3.6, the byte order, and form parsing.  Everything  *)
(* the other modules say about text is said with these operators.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

\* ------------------------------------------------------------ literals ----
Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* (TLCEval only makes TLC compute a table once instead of at every use.)
CodeOf ==
  TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)])

\* The octets of a printable ASCII string literal.
B(str) == TLCEval([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])

\* (Halving keeps long concatenations from taking quadratic time.)
RECURSIVE CatFrom(_, _, _)
CatFrom(seqs, a, b) ==
  IF b - a < 32 THEN FoldLeft(LAMBDA x, i : x \o seqs[i], <<>>, [i \in 1..(b - a + 1) |-> a + i - 1])
  ELSE LET m == (a + b) \div 2
       IN  CatFrom(seqs, a, m) \o CatFrom(seqs, m + 1, b)
Cat(seqs) == CatFrom(seqs, 1, Len(seqs))

\* Concatenation of seqs with sep between consecutive elements.
Join(seqs, sep) ==
  IF seqs = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, x : (a \o sep) \o x, Head(seqs), Tail(seqs))

\* --------------------------------------------------- percent-encoding ----
Unreserved ==
  (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 95, 126}

UriSafe(s) == \A i \in DOMAIN s : s[i] \in Unreserved

HexDigit == B("0123456789ABCDEF")

EncOctet ==
  TLCEval([b \in 0..255 |->
             IF b \in Unreserved THEN <<b>>
             ELSE <<37, HexDigit[(b \div 16) + 1], HexDigit[(b % 16) + 1]>>])

Enc(s) == Cat([i \in 1..Len(s) |-> EncOctet[s[i]]])

\* -1 for octets that are not hexadecimal digits.
HexVal ==
  TLCEval([b \in 0..255 |->
             CASE b \in 48..57  -> b - 48
               [] b \in 65..70  -> b - 55
               [] b \in 97..102 -> b - 87
               [] OTHER         -> 99])

\* Does an escaped octet start at i?  (A percent sign is no hex digit, so
\* these never overlap.)
Escape(s, i) ==
  i > 0 /\ s[i] = 37 /\ i + 2 <= Len(s) /\ HexVal[s[i+1]] < 16 /\ HexVal[s[i+2]] < 16

\* Percent-decoding; a percent sign without two hex digits stands for itself.
Dec(s) ==
  IF \A i \in DOMAIN s : s[i] # 37 THEN s
  ELSE LET at == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : ~Escape(s, i - 1) /\ ~Escape(s, i - 2))
       IN  TLCEval([k \in 1..Len(at) |->
             LET i == at[k] IN IF Escape(s, i) THEN 16 * HexVal[s[i+1]] + HexVal[s[i+2]] ELSE s[i]])

\* Is s the encoding of something (every octet unreserved or part of %XX)?
WellEncoded(s) == \A i \in DOMAIN s : s[i] \in Unreserved \/ Escape(s, i)

\* -------------------------------------------------------------- order ----
LOCAL Min2(a, b) == IF a < b THEN a ELSE b

\* First index at which s and t differ, or 0.
LOCAL DiffAt(s, t) ==
  LET n == Min2(Len(s), Len(t))
      differ(i) == s[i] # t[i]
  IN  IF \A i \in 1..n : ~differ(i) THEN 0
      ELSE CHOOSE i \in 1..n : differ(i) /\ \A j \in 1..(i-1) : ~differ(j)

\* Byte order: proper prefixes first.
Lt(s, t) ==
  LET d == DiffAt(s, t)
  IN  IF d = 0 THEN Len(s) < Len(t) ELSE s[d] < t[d]
Le(s, t) == s = t \/ Lt(s, t)

\* Order of name/value pairs.
PairLt(p, q) == Lt(p[1], q[1]) \/ (p[1] = q[1] /\ Lt(p[2], q[2]))
PairLe(p, q) == p = q \/ PairLt(p, q)
SortPairs(ps) == SortSeq(ps, PairLt)
Sorted(ps, le(_, _)) == \A i \in 1..(Len(ps) - 1) : le(ps[i], ps[i+1])

\* ---------------------------------------------------------- searching ----
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Occurs(s, b) == \E i \in DOMAIN s : s[i] = b

\* Index of the first occurrence of octet b in s, or 0.
IndexOf(s, b) ==
  IF ~Occurs(s, b) THEN 0
  ELSE CHOOSE i \in 1..Len(s) : s[i] = b /\ \A j \in 1..(i-1) : s[j] # b

\* s split at every octet b: always at least one piece.
SplitAt(s, b) ==
  LET cut == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = b)
      from(k) == IF k = 1 THEN 1 ELSE cut[k-1] + 1
      to(k)   == IF k = Len(cut) + 1 THEN Len(s) ELSE cut[k] - 1
  IN  [k \in 1..(Len(cut) + 1) |-> SubSeq(s, from(k), to(k))]

\* application/x-www-form-urlencoded parsing (empty pieces are no pairs,
\* a plus sign means space).  Pairs of decoded texts.
LOCAL Plus2Space(s) ==
  IF Occurs(s, 43) THEN [i \in 1..Len(s) |-> IF s[i] = 43 THEN 32 ELSE s[i]] ELSE s
FormPair(piece) ==
  LET e == IndexOf(piece, 61)
  IN  IF e = 0 THEN <<Dec(Plus2Space(piece)), <<>>>>
      ELSE <<Dec(Plus2Space(SubSeq(piece, 1, e - 1))), Dec(Plus2Space(Drop(piece, e)))>>
ParseForm(s) ==
  LET pieces == SelectSeq(SplitAt(s, 38), LAMBDA p : p # <<>>)
  IN  [i \in 1..Len(pieces) |-> FormPair(pieces[i])]

\* ------------------------------------------------------------ numbers ----
\* Decimal texts of positive integers.  Numbers of 64 bits exceed TLC's
\* integers, so they stay texts.
IsDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
IsDecimal(s) == IsDigits(s) /\ (s[1] # 48 \/ Len(s) = 1)
DecimalLe(s, t) == Len(s) < Len(t) \/ (Len(s) = Len(t) /\ Le(s, t))
=============================================================================
