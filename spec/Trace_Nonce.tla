---------------------------- MODULE Trace_Nonce ----------------------------
(***************************************************************************)
(* All nonces generated by everything at once: builders, clones, entry     *)
(* points, threads, forked and separate processes.  A run is [ev, groups]: *)
(* ev is the sequence of nonces in any order, and groups are lists of      *)
(* places in it whose requests differ in nothing (or are each the first of *)
(* their process or thread).  The environment never accepts a nonce twice; *)
(* within each group every bit has to take both values, and no bit may be  *)
(* a copy or the complement of another.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, used

Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
Digit == TLCEval([ch \in {SubSeq(Alphabet, i, i) : i \in 1..64} |->
                    (CHOOSE i \in 1..64 : SubSeq(Alphabet, i, i) = ch) - 1])

WellFormed(n) ==
  Len(n) \in 1..12 /\ \A i \in 1..Len(n) : SubSeq(n, i, i) \in DOMAIN Digit

Pow2 == TLCEval([i \in 0..5 |-> 2^i])

\* The 72 bits a nonce stands for: base64 digits, cut to whole octets, with
\* leading zero octets left out.
Bits(n) ==
  LET all == 8 * ((6 * Len(n)) \div 8)
      digit == TLCEval([i \in 1..Len(n) |-> Digit[SubSeq(n, i, i)]])
      bit(i) == (digit[((i - 1) \div 6) + 1] \div Pow2[5 - ((i - 1) % 6)]) % 2
  IN  [i \in 1..72 |-> IF i <= 72 - all THEN 0 ELSE bit(i - (72 - all))]

\* Groups are large enough for a chance failure to be out of the question.
GroupOk(r, g) ==
  LET bits == TLCEval([i \in 1..Len(g) |-> TLCEval(Bits(r.ev[g[i]]))])
      n == Len(g)
      varies(i) == \E a \in 2..n : bits[a][i] # bits[1][i]
      apart(i, j) == \E a \in 2..n : (bits[a][i] = bits[a][j]) # (bits[1][i] = bits[1][j])
  IN  n >= 60 =>
        /\ \A i \in 1..72 : varies(i)
        /\ n >= 100 => \A i \in 1..71 : \A j \in (i+1)..72 : apart(i, j)

Init == caseNo \in DOMAIN Runs /\ pos = 1 /\ used = {}

Next ==
  LET r == Runs[caseNo]
  IN  \/ /\ pos <= Len(r.ev)
         /\ WellFormed(r.ev[pos])
         /\ r.ev[pos] \notin used
         /\ used' = used \cup {r.ev[pos]}
         /\ pos' = pos + 1
         /\ UNCHANGED caseNo
      \/ /\ pos > Len(r.ev)
         /\ pos <= Len(r.ev) + Len(r.groups)
         /\ GroupOk(r, r.groups[pos - Len(r.ev)]) = TRUE
         /\ pos' = pos + 1
         /\ UNCHANGED <<caseNo, used>>
      \/ pos > Len(r.ev) + Len(r.groups) /\ UNCHANGED <<caseNo, pos, used>>

Spec == Init /\ [][Next]_<<caseNo, pos, used>>

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos]
=============================================================================
