--------------------------- MODULE Trace_Session ---------------------------
(***************************************************************************)
(* Trace validation: are the recorded runs of the real library behaviours  *)
(* of the specification?  Every line of the trace file is one run; the     *)
(* events of a run are consumed one by one by the specification's steps,   *)
(* and what was observed has to be what the specification says.  A run     *)
(* that is no behaviour of the specification deadlocks.                    *)
(*                                                                         *)
(* A run is [cfg, ev, chk, entry, clock]; chk lists the observables judged *)
(*   "out"    the whole output, octet by octet                             *)
(*   "sig"    the signature parameter                                      *)
(*   "base"   the base string put together from a custom method's calls    *)
(*   "calls"  every call a custom method got                               *)
(*   "nonce"  the nonce is the configured one or well-formed, and signed   *)
(*   "ts"     the timestamp is the configured one or the time, and signed  *)
(*   "recv"   a receiver of the output rebuilds the signed text            *)
(***************************************************************************)
EXTENDS Observe, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, sess

run == Runs[caseNo]
Events == run.ev
Has(x) == \E i \in DOMAIN run.chk : run.chk[i] = x

\* The configuration in effect.
CfgOf(r) == IF r.entry = "" THEN r.cfg ELSE EntryCfg(r.cfg, r.entry)

\* The nonce and timestamp an unpinned run used, read from its output.
Observed(r) ==
  LET n == Len(r.ev)
      e == r.ev[n]
  IN  IF n = 0 \/ e.op # "end" THEN [nonce |-> <<>>, ts |-> <<>>]
      ELSE Transmitted(CfgOf(r), e.out)

\* What is transmitted as nonce and timestamp is what is configured, or else
\* fresh and the time.
Signed(cfg, i, text, e) ==   \* a recording method was given the same
  cfg.sm.kind = "record" =>
    \E j \in DOMAIN e.calls : e.calls[j] = SlotCall(cfg, i, Enc(Enc(text)))
NonceOk(r, e) ==
  LET cfg == CfgOf(r)
      o == Transmitted(cfg, e.out)
  IN  Authorized(cfg) /\ cfg.sm.use_nonce /\ sess.slots[3] > 0 =>
        /\ IF cfg.nonce # <<>> THEN o.nonce = cfg.nonce[1] ELSE FreshNonce(o.nonce)
        /\ Signed(cfg, 3, o.nonce, e)
TimestampOk(r, e) ==
  LET cfg == CfgOf(r)
      o == Transmitted(cfg, e.out)
  IN  Authorized(cfg) /\ cfg.sm.use_ts /\ sess.slots[5] > 0 =>
        /\ IF cfg.timestamp # <<>> THEN o.ts = cfg.timestamp[1] ELSE TimeOk(r.clock, o.ts)
        /\ Signed(cfg, 5, o.ts, e)

Init ==
  /\ caseNo \in DOMAIN Runs
  /\ pos = 1
  /\ sess = Open(CfgOf(Runs[caseNo]), Observed(Runs[caseNo]))

\* One event: a step that returned must be possible, one that panicked must
\* be misuse.
Returned(t) == t.phase # "panicked"

TraceStep(e) ==
  LET t == Step(sess, e)
  IN  /\ e.op \in {"param", "proto", "all"}
      /\ Returned(sess) /\ Returned(t)
      /\ sess' = t

TraceRequest(e) ==
  LET t == Feed(sess, e.req)
  IN  /\ e.op = "request"
      /\ Returned(sess) /\ Returned(t)
      /\ sess' = t

\* The library panicked in this step (or, given "open", at opening; an entry
\* point opens and feeds in one go).  Nothing is signed when opening fails.
TracePanic(e) ==
  /\ e.op = "panic"
  /\ IF e.in.op = "open" \/ (run.entry # "" /\ sess.phase = "panicked")
     THEN sess.phase = "panicked" /\ e.calls = sess.calls /\ sess' = sess
     ELSE LET t == IF e.in.op = "request" THEN Feed(sess, e.in.req) ELSE Step(sess, e.in)
          IN  Returned(sess) /\ ~Returned(t) /\ sess' = t
  /\ pos = Len(Events)

TraceEnd(e) ==
  /\ e.op = "end"
  /\ Returned(sess)
  /\ Has("nonce") => NonceOk(run, e) = TRUE
  /\ Has("ts") => TimestampOk(run, e) = TRUE
  /\ LET cfg == sess.cfg
         sig == IF ~Authorized(cfg) THEN <<<<>>>>
                ELSE IF cfg.sm.kind = "record" THEN <<cfg.sm.sig>>
                ELSE SignatureOf(cfg, e.out)
         t == End(sess, sig[1])
     IN  /\ sig # <<>>
         /\ Has("out") => e.out = t.out
         /\ Has("sig") /\ Authorized(cfg) => SignatureOk(cfg, FedBase(sess), sig[1])
         /\ Has("base") => CallsBase(cfg, e.calls) = FedBase(sess)
         /\ Has("calls") => e.calls = t.calls
         /\ Has("recv") /\ Premises(sess) => ReceiverBase(cfg, e.out, sess.params) = CallsBase(cfg, e.calls)
         /\ sess' = t

Done == pos > Len(Events) /\ UNCHANGED <<caseNo, pos, sess>>

Next ==
  \/ /\ pos <= Len(Events)
     /\ LET e == Events[pos]
        IN  TraceStep(e) \/ TraceRequest(e) \/ TracePanic(e) \/ TraceEnd(e)
     /\ pos' = pos + 1
     /\ caseNo' = caseNo
  \/ Done

Spec == Init /\ [][Next]_<<caseNo, pos, sess>>

\* The specification's invariants, in every state of every run.
Inv == SessionInv(sess)

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, phase |-> sess.phase, spec_out |-> sess.out, spec_calls |-> sess.calls]
=============================================================================
