------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What the specification says about one whole observed request: its       *)
(* configuration, the request, the output, and (for a recording signature  *)
(* method) the calls.  The nonce and the timestamp of a request that does  *)
(* not configure them are read from the output.                            *)
(***************************************************************************)
EXTENDS Requests

\* The nonce and timestamp used, as transmitted.
Transmitted(cfg, out) ==
  IF ~Authorized(cfg) THEN [nonce |-> <<>>, ts |-> <<>>]
  ELSE LET carried == Carried(cfg, out)
       IN  [nonce |-> ValueOf(carried, SlotName[3]), ts |-> ValueOf(carried, SlotName[5])]

\* clock is <<>> (unknown) or <<lo, hi>>: decimal texts of the seconds
\* between which the request was authorized.
TimeOk(clock, ts) ==
  IsDecimal(ts) /\ (clock = <<>> \/ (DecimalLe(clock[1], ts) /\ DecimalLe(ts, clock[2])))

\* The decoded signature parameter of an output, as a sequence of at most one.
SignatureOf(cfg, out) ==
  LET sigs == SignaturesIn(Carried(cfg, out))
  IN  IF Len(sigs) = 1 THEN <<sigs[1][2]>> ELSE <<>>

\* A whole request through the library: cfg fed with req.
RequestOk(cfg, req, out, calls, clock) ==
  LET o == Transmitted(cfg, out)
      s == Feed(Open(cfg, o), req)
      sig == IF ~Authorized(cfg) THEN <<<<>>>>
             ELSE IF cfg.sm.kind = "record" THEN <<cfg.sm.sig>>
             ELSE SignatureOf(cfg, out)
  IN  /\ s.phase = "open"
      /\ sig # <<>>
      /\ out = End(s, sig[1]).out
      /\ Authorized(cfg) =>
           /\ cfg.nonce = <<>> /\ cfg.sm.use_nonce => FreshNonce(o.nonce)
           /\ cfg.timestamp = <<>> /\ cfg.sm.use_ts => TimeOk(clock, o.ts)
           /\ SignatureOk(cfg, FedBase(s), sig[1])
           /\ cfg.sm.kind = "record" => calls = End(s, sig[1]).calls
=============================================================================
