------------------------------ MODULE Rfc5849 ------------------------------
(***************************************************************************)
(* RFC 5849, declaratively: the signature base string, the signature       *)
(* methods, and what a receiver can read out of a transmitted request.     *)
(* Nothing here says how the library computes any of it (see Session).     *)
(*                                                                         *)
(* A configuration cfg is a record                                         *)
(*   mode     "header" | "form" | "query"   authorized                     *)
(*            "pform" | "pquery"            plain, without authorization   *)
(*   buf      text already in the output buffer (header, form, pform)      *)
(*   method, uri                            texts                          *)
(*   cid, csec                              client identifier and secret   *)
(*   token    <<>> or <<id, secret>>                                       *)
(*   callback, verifier, nonce, timestamp   <<>> or <<text>>               *)
(*   version  BOOLEAN                                                      *)
(*   sm       the signature method: [kind, name, sig, use_nonce, use_ts,   *)
(*            n, e] with kind "record" | "plaintext" | "hmac" | "rsa"      *)
(*   debug    are debug assertions compiled in?                            *)
(*   order    is the order of names checked (debug assertions and alloc)?  *)
(*   clock    is there a clock (the standard library)?                     *)
(* A request parameter is [k, v, enc]: name, text, "is already encoded".   *)
(***************************************************************************)
EXTENDS Octets, Sha1, Rsa
LOCAL INSTANCE SequencesExt

Amp == 38
Eq == 61
Question == 63
Comma == 44
Quote == 34

\* ----------------------------------------------- protocol parameters ----
SlotName == << B("oauth_callback"), B("oauth_consumer_key"), B("oauth_nonce"),
               B("oauth_signature_method"), B("oauth_timestamp"), B("oauth_token"),
               B("oauth_verifier"), B("oauth_version") >>
Slots == 1..8
OauthSignature == B("oauth_signature")
ASSUME Sorted([i \in Slots |-> SlotName[i]], Lt)

OnePointZero == B("1.0")

InForce(cfg, i) ==
  CASE i = 1 -> cfg.callback # <<>>
    [] i = 2 -> TRUE
    [] i = 3 -> cfg.sm.use_nonce
    [] i = 4 -> TRUE
    [] i = 5 -> cfg.sm.use_ts
    [] i = 6 -> cfg.token # <<>>
    [] i = 7 -> cfg.verifier # <<>>
    [] i = 8 -> cfg.version

\* The value of slot i, given the texts used for an unconfigured nonce and
\* timestamp.
SlotValue(cfg, i, nonce, ts) ==
  CASE i = 1 -> cfg.callback[1]
    [] i = 2 -> cfg.cid
    [] i = 3 -> IF cfg.nonce # <<>> THEN cfg.nonce[1] ELSE nonce
    [] i = 4 -> cfg.sm.name
    [] i = 5 -> IF cfg.timestamp # <<>> THEN cfg.timestamp[1] ELSE ts
    [] i = 6 -> cfg.token[1]
    [] i = 7 -> cfg.verifier[1]
    [] i = 8 -> OnePointZero

SlotsInForce(cfg) == SelectSeq([i \in Slots |-> i], LAMBDA i : InForce(cfg, i))

\* Protocol parameters in force as pairs of texts (names never need encoding).
ProtoPairs(cfg, nonce, ts) ==
  LET f == SlotsInForce(cfg)
  IN  [j \in 1..Len(f) |-> <<SlotName[f[j]], SlotValue(cfg, f[j], nonce, ts)>>]

NonceChar == (48..57) \cup (65..90) \cup (97..122) \cup {45, 95}
FreshNonce(s) == Len(s) \in 1..12 /\ \A i \in DOMAIN s : s[i] \in NonceChar

\* ------------------------------------- request parameters and encoding ----
EncValue(p) == IF p.enc THEN p.v ELSE Enc(p.v)
EncPair(p) == <<p.k, EncValue(p)>>
EncPairs(ps) == [i \in 1..Len(ps) |-> EncPair(ps[i])]
TextPairs(ps) == [i \in 1..Len(ps) |-> <<ps[i].k, IF ps[i].enc THEN Dec(ps[i].v) ELSE ps[i].v>>]
EncText(pairs) == [i \in 1..Len(pairs) |-> <<pairs[i][1], Enc(pairs[i][2])>>]

PairText(pair) == (pair[1] \o <<Eq>>) \o pair[2]
FormText(encpairs) == Join([i \in 1..Len(encpairs) |-> PairText(encpairs[i])], <<Amp>>)

\* A parameter whose text a receiver re-encodes to what was sent.
Canonical(p) == UriSafe(p.k) /\ (p.enc => Enc(Dec(p.v)) = p.v)
NoCollision(ps) ==
  \A i \in DOMAIN ps : ps[i].k # OauthSignature /\ \A j \in Slots : ps[i].k # SlotName[j]

\* ------------------------------- 3.4.1: the signature base string ----
\* encpairs: all parameters but oauth_signature, names and values encoded.
BaseString(method, uri, encpairs) ==
  ((Enc(method) \o <<Amp>>) \o (Enc(uri) \o <<Amp>>)) \o Enc(FormText(SortPairs(encpairs)))

\* --------------------------------------- 3.4.2-4: signature methods ----
SigningKey(cfg) ==
  (Enc(cfg.csec) \o <<Amp>>) \o (IF cfg.token = <<>> THEN <<>> ELSE Enc(cfg.token[2]))

HmacSignature(cfg, base) == Base64(HMAC(SigningKey(cfg), base))

\* Is sig (a decoded oauth_signature) right for the base string?
SignatureOk(cfg, base, sig) ==
  CASE cfg.sm.kind = "record"    -> sig = cfg.sm.sig
    [] cfg.sm.kind = "plaintext" -> sig = SigningKey(cfg)
    [] cfg.sm.kind = "hmac"      -> sig = HmacSignature(cfg, base)
    [] cfg.sm.kind = "rsa"       ->
         LET raw == UnBase64(sig)
         IN  Base64(raw) = sig /\ RsaVerify(cfg.sm.n, cfg.sm.e, base, raw)

\* ------------------------------------------------ reading it back ----
\* 3.5.1, strictly: OAuth name="value",name="value"...   The result is a
\* sequence of raw name/value pairs or <<>> when the text is no such header.
AuthScheme == B("OAuth ")

LOCAL HeaderPair(t) ==
  LET e == IndexOf(t, Eq)
  IN  IF e > 1 /\ Len(t) >= e + 2 /\ t[e+1] = Quote /\ t[Len(t)] = Quote
      THEN << SubSeq(t, 1, e - 1), SubSeq(t, e + 2, Len(t) - 1) >>
      ELSE <<>>

HeaderPairs(out) ==
  IF ~IsPrefixOf(AuthScheme, out) THEN <<>>
  ELSE LET pieces == SplitAt(Drop(out, Len(AuthScheme)), Comma)
           pairs == [i \in 1..Len(pieces) |-> HeaderPair(pieces[i])]
       IN  IF \A i \in DOMAIN pairs :
                pairs[i] # <<>> /\ WellEncoded(pairs[i][1]) /\ WellEncoded(pairs[i][2])
           THEN pairs ELSE <<>>

DecPairs(ps) == [i \in 1..Len(ps) |-> <<Dec(ps[i][1]), Dec(ps[i][2])>>]

\* Decoded pairs a receiver reads out of what was produced in each mode.
Carried(cfg, out) ==
  CASE cfg.mode = "header" ->
         IF IsPrefixOf(cfg.buf, out) THEN DecPairs(HeaderPairs(Drop(out, Len(cfg.buf)))) ELSE <<>>
    [] cfg.mode \in {"form", "pform"} ->
         IF IsPrefixOf(cfg.buf, out) THEN ParseForm(Drop(out, Len(cfg.buf))) ELSE <<>>
    [] cfg.mode \in {"query", "pquery"} ->
         IF IsPrefixOf(cfg.uri, out) /\ Len(out) > Len(cfg.uri) /\ out[Len(cfg.uri) + 1] = Question
         THEN ParseForm(Drop(out, Len(cfg.uri) + 1)) ELSE <<>>

WithoutSignature(pairs) == SelectSeq(pairs, LAMBDA p : p[1] # OauthSignature)
SignaturesIn(pairs) == SelectSeq(pairs, LAMBDA p : p[1] = OauthSignature)
ValueOf(pairs, name) ==   \* value of the first pair of that name, or <<>>
  LET m == SelectSeq(pairs, LAMBDA p : p[1] = name)
  IN  IF m = <<>> THEN <<>> ELSE m[1][2]

\* The base string a receiver rebuilds: in header mode it learns the request
\* parameters from the request itself.
ReceiverBase(cfg, out, params) ==
  LET carried == WithoutSignature(Carried(cfg, out))
      all == IF cfg.mode = "header" THEN carried \o TextPairs(params) ELSE carried
  IN  BaseString(cfg.method, cfg.uri, EncText(all))
=============================================================================
