------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One serialization as the library performs it, step by step: a           *)
(* serializer is opened, fed request parameters and protocol parameter     *)
(* slots in some order, and ended.  The steps are functions on a state     *)
(* record so that both a state machine (actions s' = Step(s, e)) and whole *)
(* runs (folding Step) can use them.                                       *)
(*                                                                         *)
(* A session state s has                                                   *)
(*   cfg     the configuration (see Rfc5849)                               *)
(*   phase   "open", "panicked" or "done"                                  *)
(*   signed  encoded pairs fed to the signer so far, in order              *)
(*   sent    number of pairs written to the output so far                  *)
(*   out     the output so far                                             *)
(*   prev    the last name fed (its order is what debug builds check)      *)
(*   slots   how often each protocol slot was fed                          *)
(*   params  request parameters fed so far (history)                       *)
(*   calls   calls made to the signature method so far                     *)
(*   fresh   the nonce and timestamp texts used when not configured        *)
(***************************************************************************)
EXTENDS Rfc5849
LOCAL INSTANCE SequencesExt

Authorized(cfg) == cfg.mode \in {"header", "form", "query"}

\* Hooks of a signature method that can be overridden, per slot.
HookOf == << "callback", "consumer_key", "nonce", "signature_method",
             "timestamp", "token", "verifier", "version" >>

\* The call announcing slot i with the doubly encoded text ee: through the
\* dedicated hook if the method overrides it, else the general one.
SlotCall(cfg, i, ee) ==
  IF \E h \in DOMAIN cfg.sm.hooks : cfg.sm.hooks[h] = HookOf[i]
  THEN IF i \in {4, 8} THEN <<HookOf[i]>> ELSE <<HookOf[i], ee>>
  ELSE <<"parameter", SlotName[i], ee>>

Open(cfg, fresh) ==
  LET bad == Authorized(cfg) /\ cfg.debug /\ Occurs(cfg.uri, Question)
  IN  [ cfg |-> cfg, phase |-> IF bad THEN "panicked" ELSE "open",
        signed |-> <<>>, sent |-> 0, prev |-> <<>>,
        slots |-> [i \in Slots |-> 0], params |-> <<>>, fresh |-> fresh,
        out |-> CASE cfg.mode = "header" -> cfg.buf \o AuthScheme
                  [] cfg.mode \in {"form", "pform"} -> cfg.buf
                  [] OTHER -> cfg.uri,
        calls |-> IF bad \/ ~Authorized(cfg) THEN <<>>
                  ELSE << <<"sign_with", cfg.csec, IF cfg.token = <<>> THEN <<>> ELSE <<cfg.token[2]>>>>,
                          <<"request_method", cfg.method>>,
                          <<"uri", Enc(cfg.uri)>> >> ]

\* Would feeding name k now be reported as misordered?
Misordered(s, k) == Authorized(s.cfg) /\ s.cfg.order /\ Lt(k, s.prev)

Panicked(s) == [s EXCEPT !.phase = "panicked"]

\* Write one encoded pair to the output.
Send(s, pair) ==
  LET sep == IF s.sent > 0 THEN <<Amp>>
             ELSE IF s.cfg.mode \in {"query", "pquery"} THEN <<Question>> ELSE <<>>
  IN  [s EXCEPT !.sent = @ + 1,
                !.out = CASE s.cfg.mode = "header" ->
                               @ \o ((pair[1] \o <<Eq, Quote>>) \o (pair[2] \o <<Quote, Comma>>))
                          [] OTHER -> @ \o (sep \o PairText(pair))]

\* Feed one encoded pair to the signer through the given call.
Sign(s, pair, call) ==
  [s EXCEPT !.signed = Append(@, pair),
            !.calls = (IF s.signed = <<>> THEN @ ELSE Append(@, <<"delimiter">>)) \o <<call>>]

Param(s, p) ==
  IF Misordered(s, p.k) THEN Panicked(s)
  ELSE LET pair == EncPair(p)
           t == IF s.cfg.mode = "header" THEN s ELSE Send(s, pair)
           u == IF Authorized(s.cfg)
                THEN Sign(t, pair, <<"parameter", p.k, Enc(pair[2])>>) ELSE t
       IN  [u EXCEPT !.params = Append(@, p), !.prev = p.k]

Proto(s, i) ==
  IF ~Authorized(s.cfg) \/ ~InForce(s.cfg, i) THEN [s EXCEPT !.slots[i] = @ + 1]
  ELSE IF Misordered(s, SlotName[i]) THEN Panicked(s)
  ELSE IF i = 5 /\ s.cfg.timestamp = <<>> /\ ~s.cfg.clock THEN Panicked(s)
  ELSE LET text == SlotValue(s.cfg, i, s.fresh.nonce, s.fresh.ts)
           pair == <<SlotName[i], IF i = 4 THEN text ELSE Enc(text)>>
           ee == IF i = 4 THEN text ELSE Enc(pair[2])
           t == Sign(Send(s, pair), pair, SlotCall(s.cfg, i, ee))
       IN  [t EXCEPT !.slots[i] = @ + 1, !.prev = SlotName[i]]

AllProto(s) ==
  FoldLeft(LAMBDA x, i : IF x.phase = "open" THEN Proto(x, i) ELSE x, s, [i \in Slots |-> i])

\* The serializer is ended; sig is the decoded signature.
End(s, sig) ==
  IF ~Authorized(s.cfg) THEN [s EXCEPT !.phase = "done"]
  ELSE LET enc == IF s.cfg.sm.kind = "record" THEN sig ELSE Enc(sig)
           t == Send(s, <<OauthSignature, enc>>)
       IN  [s EXCEPT !.phase = "done", !.sent = t.sent,
                     !.out = IF s.cfg.mode = "header" THEN SubSeq(t.out, 1, Len(t.out) - 1) ELSE t.out,
                     !.calls = Append(@, <<"end">>)]

\* One step, by event [op, ...].
Step(s, e) ==
  IF s.phase # "open" THEN s
  ELSE CASE e.op = "param" -> Param(s, [k |-> e.k, v |-> e.v, enc |-> e.enc])
         [] e.op = "proto" -> Proto(s, e.slot)
         [] e.op = "all"   -> AllProto(s)
         [] e.op = "end"   -> End(s, e.sig)

Run(cfg, fresh, events) == FoldLeft(Step, Open(cfg, fresh), events)

\* ------------------------------------------------- the base string ----
\* As fed: in the order of feeding, by concatenation.
FedBase(s) ==
  LET enc(pair) == (pair[1] \o B("%3D")) \o Enc(pair[2])
  IN  ((Enc(s.cfg.method) \o <<Amp>>) \o (Enc(s.cfg.uri) \o <<Amp>>))
        \o Join([i \in 1..Len(s.signed) |-> enc(s.signed[i])], B("%26"))

\* As a custom signature method puts it together from the calls it saw.
CallsBase(cfg, calls) ==
  LET piece(c) ==
        CASE c[1] = "sign_with" -> <<>>
          [] c[1] = "request_method" -> Enc(c[2]) \o <<Amp>>
          [] c[1] = "uri" -> c[2] \o <<Amp>>
          [] c[1] = "delimiter" -> B("%26")
          [] c[1] = "parameter" -> (c[2] \o B("%3D")) \o c[3]
          [] c[1] = "end" -> <<>>
          [] c[1] = "signature_method" -> (SlotName[4] \o B("%3D")) \o cfg.sm.name
          [] c[1] = "version" -> (SlotName[8] \o B("%3D")) \o OnePointZero
          [] OTHER -> (SlotName[CHOOSE i \in Slots : HookOf[i] = c[1]] \o B("%3D")) \o c[2]
  IN  Cat([i \in 1..Len(calls) |-> piece(calls[i])])

\* ------------------------------------------------------ invariants ----
\* Premises under which the promises are made: every name URI-safe and no
\* protocol name, fed in order, each slot once.
FedInOrder(s) == Sorted(s.signed, PairLe)
Complete(s) == \A i \in Slots : s.slots[i] = 1
Premises(s) ==
  /\ FedInOrder(s) /\ Complete(s) /\ NoCollision(s.params)
  /\ \A i \in DOMAIN s.params : Canonical(s.params[i])
  /\ UriSafe(s.cfg.sm.name)
  /\ s.cfg.sm.kind = "record" => WellEncoded(s.cfg.sm.sig)

\* What is fed to the signer is the RFC's base string.
InvBase(s) ==
  s.phase = "done" /\ Authorized(s.cfg) /\ Premises(s) =>
    FedBase(s) = BaseString(s.cfg.method, s.cfg.uri,
                   EncText(ProtoPairs(s.cfg, s.fresh.nonce, s.fresh.ts)) \o EncPairs(s.params))

\* The calls put together give the same text.
InvCalls(s) ==
  s.phase = "done" /\ Authorized(s.cfg) /\ UriSafe(s.cfg.sm.name) => CallsBase(s.cfg, s.calls) = FedBase(s)

\* A receiver rebuilds the signed text from what was sent.
InvReceiver(s) ==
  s.phase = "done" /\ Authorized(s.cfg) /\ Premises(s) =>
    ReceiverBase(s.cfg, s.out, s.params) = FedBase(s)

\* Exactly the parameters in force are sent, the signature last.
InvSent(s) ==
  s.phase = "done" /\ Authorized(s.cfg) /\ Premises(s) =>
    LET carried == Carried(s.cfg, s.out)
        proto == ProtoPairs(s.cfg, s.fresh.nonce, s.fresh.ts)
        expected == IF s.cfg.mode = "header" THEN proto
                    ELSE SortSeq(proto \o TextPairs(s.params),
                                 LAMBDA p, q : PairLt(<<p[1], Enc(p[2])>>, <<q[1], Enc(q[2])>>))
    IN  /\ carried # <<>>
        /\ carried[Len(carried)][1] = OauthSignature
        /\ SubSeq(carried, 1, Len(carried) - 1) = expected

\* Plain serialization round-trips.
InvPlain(s) ==
  s.phase = "done" /\ ~Authorized(s.cfg) /\ (\A i \in DOMAIN s.params : Canonical(s.params[i])) =>
    /\ s.params = <<>> => s.out = (IF s.cfg.mode = "pform" THEN s.cfg.buf ELSE s.cfg.uri)
    /\ Carried(s.cfg, s.out) = SelectSeq(TextPairs(s.params), LAMBDA p : TRUE)

\* Panics happen exactly for misuse in debug builds.
InvPanic(s) ==
  s.phase = "panicked" =>
    /\ Authorized(s.cfg)
    /\ \/ s.cfg.debug /\ Occurs(s.cfg.uri, Question)
       \/ s.cfg.order
       \/ ~s.cfg.clock /\ s.cfg.timestamp = <<>>

SessionInv(s) ==
  InvBase(s) /\ InvCalls(s) /\ InvReceiver(s) /\ InvSent(s) /\ InvPlain(s) /\ InvPanic(s)
=============================================================================
