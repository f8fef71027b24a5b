----------------------------- MODULE Trace_Chars -----------------------------
(***************************************************************************)
(* Validation of percent-encoding: a run is [where, from, to, each, whole]. *)
(* In the given place the library encoded every Unicode scalar value of    *)
(* from..to by itself (each: one string per scalar value), and all of them *)
(* as one text (whole: the same cut into pieces as long as those of each,  *)
(* and whatever remains).  What is observed is ASCII, so these are strings *)
(* and not sequences of octets, to get through all 1112064 scalar values.  *)
(***************************************************************************)
EXTENDS Octets, Json, IOUtils
LOCAL INSTANCE SequencesExt

Runs == ndJsonDeserialize(IOEnv.TRACE)

\* How many times a text is encoded there.
Level ==
  "plainform.value" :> 1 @@ "plainquery.value" :> 1 @@ "form.value" :> 1 @@ "query.value" :> 1 @@ "header.cid" :> 1
  @@ "header.token" :> 1 @@ "header.callback" :> 1 @@ "header.verifier" :> 1 @@ "header.nonce" :> 1
  @@ "form.cid" :> 1 @@ "form.token" :> 1 @@ "form.callback" :> 1 @@ "form.verifier" :> 1 @@ "form.nonce" :> 1
  @@ "query.cid" :> 1 @@ "query.callback" :> 1 @@ "query.token" :> 1
  @@ "header.csec" :> 2 @@ "header.tsec" :> 2 @@ "form.csec" :> 2 @@ "query.tsec" :> 2
  @@ "sign.value" :> 2 @@ "sign.cid" :> 2 @@ "sign.token" :> 2 @@ "sign.callback" :> 2 @@ "sign.verifier" :> 2
  @@ "sign.nonce" :> 2 @@ "sign.encoded" :> 1 @@ "sign.uri" :> 1 @@ "sign.uriquery" :> 1

\* An octet encoded once and twice, as strings.
Char(b) == SubSeq(Printable, b - 31, b - 31)
Str(s) == FoldLeft(LAMBDA a, x : a \o Char(x), "", s)
Enc1 == TLCEval([b \in 0..255 |-> Str(EncOctet[b])])
Enc2 == TLCEval([b \in 0..255 |-> Str(Enc(EncOctet[b]))])

ASSUME \A b \in 0..255 : B(Enc1[b]) = EncOctet[b] /\ B(Enc2[b]) = Enc(EncOctet[b])
\* Decoding restores each octet, whatever comes before and after (an encoding is complete or a single octet).
ASSUME \A b \in 0..255 : Dec(B(Enc1[b])) = <<b>> /\ Dec(Dec(B(Enc2[b]))) = <<b>>

\* UTF-8.
Octet(n, b) == IF n = 1 THEN Enc1[b] ELSE Enc2[b]
Encoded(c, n) ==
  IF c < 128 THEN Octet(n, c)
  ELSE IF c < 2048 THEN Octet(n, 192 + (c \div 64)) \o Octet(n, 128 + (c % 64))
  ELSE IF c < 65536 THEN Octet(n, 224 + (c \div 4096)) \o (Octet(n, 128 + ((c \div 64) % 64)) \o Octet(n, 128 + (c % 64)))
  ELSE (Octet(n, 240 + (c \div 262144)) \o Octet(n, 128 + ((c \div 4096) % 64)))
       \o (Octet(n, 128 + ((c \div 64) % 64)) \o Octet(n, 128 + (c % 64)))

\* A question mark ends a URI.
Scalars(w, a, b) ==
  SelectSeq([i \in 1..(b - a + 1) |-> a + i - 1],
            LAMBDA c : c \notin 55296..57343 /\ (c # 63 \/ w \notin {"sign.uri", "sign.uriquery"}))

VARIABLES caseNo, pos

Init == caseNo \in DOMAIN Runs /\ pos = 1

Want(r) == LET s == Scalars(r.where, r.from, r.to) IN [i \in 1..Len(s) |-> Encoded(s[i], Level[r.where])]

Good(r) == LET w == TLCEval(Want(r)) IN r.each = w /\ r.whole = w

Next ==
  \/ pos = 1 /\ Good(Runs[caseNo]) = TRUE /\ pos' = 2 /\ UNCHANGED caseNo
  \/ pos = 2 /\ UNCHANGED <<caseNo, pos>>

Spec == Init /\ [][Next]_<<caseNo, pos>>

Alias == [case |-> caseNo, at |-> pos, expected |-> Want(Runs[caseNo])]
=============================================================================
