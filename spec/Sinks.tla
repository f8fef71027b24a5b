-------------------------------- MODULE Sinks --------------------------------
(***************************************************************************)
(* Serialization into sinks that refuse to take text, and of texts whose   *)
(* display fails.  A limit is <<>> (none) or <<n>>: the number of octets   *)
(* the sink takes.  Limits l:                                              *)
(*   cap     of the output buffer                                          *)
(*   keycap  of the buffer the PLAINTEXT method puts the signature into    *)
(*   vcap    of the buffer a custom signature method displays values into  *)
(*   failuri the display of the URI fails                                  *)
(* A session under limits is [s, stuck, may]: stuck once something was     *)
(* refused, which has to be reported (by a panic) then or later, but       *)
(* before a result is given.  It may be given up also when a text fails    *)
(* that could have been done without.                                      *)
(***************************************************************************)
EXTENDS Observe
LOCAL INSTANCE SequencesExt

Fits(limit, text) == limit = <<>> \/ Len(text) <= limit[1]

\* Does the signature method need to see the texts it signs?
Reads(cfg) == Authorized(cfg) /\ cfg.sm.kind \in {"hmac", "rsa"}

KeyFits(cfg, l) ==
  ~Authorized(cfg) \/ cfg.sm.kind # "plaintext" \/ Fits(l.keycap, Enc(SigningKey(cfg)))

\* Can a text whose display fails not be done without?
Lost(cfg) == Reads(cfg) \/ cfg.mode # "header"

OpenWithin(cfg, fresh, l) ==
  LET s == Open(cfg, fresh)
      stuck == ~KeyFits(cfg, l) \/ (cfg.mode = "header" /\ ~Fits(l.cap, s.out)) \/ (l.failuri /\ Reads(cfg))
  IN  [s |-> s, stuck |-> stuck, may |-> stuck \/ l.failuri]

Fails(e) == "fail" \in DOMAIN e /\ e.fail

StepWithin(x, e, l) ==
  LET t == Step(x.s, e)
      stuck == x.stuck \/ (t.out # x.s.out /\ ~Fits(l.cap, t.out)) \/ (Fails(e) /\ Lost(x.s.cfg))
  IN  [s |-> t, stuck |-> stuck, may |-> x.may \/ stuck \/ Fails(e)]

EndWithin(x, sig, l) == StepWithin(x, [op |-> "end", sig |-> sig], l)

\* The call c as a custom method notes it whose buffer is limited (a text
\* that does not fit, or fails, is noted as such).
NoText == B("refused!")
\* (A timestamp is given as a number to its own hook.)
TextCalls == {"uri", "parameter", "callback", "consumer_key", "nonce", "token", "verifier"}
Noted(c, l) ==
  IF c[1] \in TextCalls /\ ~Fits(l.vcap, c[Len(c)]) THEN [c EXCEPT ![Len(c)] = NoText] ELSE c

\* Noted calls agree with those of the specification; failing texts (those of
\* the parameters, by their keys) may only be noted as lost.
CallsWithin(cfg, l, calls, noted, failing) ==
  /\ Len(calls) = Len(noted)
  /\ \A i \in DOMAIN calls :
       LET c == calls[i]
           lost == \/ c[1] = "uri" /\ l.failuri
                   \/ c[1] = "parameter" /\ c[2] \in failing
       IN  noted[i] = IF lost THEN [c EXCEPT ![Len(c)] = NoText] ELSE Noted(c, l)
==============================================================================
