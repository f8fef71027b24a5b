----------------------------- MODULE Trace_Sinks -----------------------------
(***************************************************************************)
(* Validation of recorded sessions under limits.  A run is                 *)
(* [cfg, limits, ev, refused, calls] and either out or panic: the step     *)
(* (0: opening) that panicked.  refused says whether the sinks really      *)
(* refused something (some do so once only, limits or not: blip).          *)
(***************************************************************************)
EXTENDS Sinks, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
None == [nonce |-> <<>>, ts |-> <<>>]

VARIABLES caseNo, pos, x

run == Runs[caseNo]
Panics(i) == "panic" \in DOMAIN run /\ run.panic = i

\* May the step that led to y have panicked?
MayPanic(y) ==
  \/ y.may
  \/ run.blip /\ run.refused

Failing == {run.ev[i].k : i \in {j \in DOMAIN run.ev : Fails(run.ev[j])}}

EndOk ==
  LET cfg == run.cfg
      sig == IF ~Authorized(cfg) THEN <<<<>>>> ELSE IF cfg.sm.kind = "record" THEN <<cfg.sm.sig>> ELSE SignatureOf(cfg, run.out)
  IN  /\ sig # <<>>
      /\ LET y == EndWithin(x, sig[1], run.limits)
         IN  /\ ~y.stuck /\ ~run.refused
             /\ run.out = y.s.out
             /\ Authorized(cfg) =>
                  IF cfg.sm.kind = "record"
                  THEN CallsWithin(cfg, run.limits, y.s.calls, run.calls, Failing)
                  ELSE SignatureOk(cfg, FedBase(x.s), sig[1])

\* What ending may panic of: the whole text, where it is known.
EndMayPanic ==
  LET cfg == run.cfg
      sig == IF ~Authorized(cfg) THEN <<>> ELSE CASE cfg.sm.kind = "record" -> cfg.sm.sig
               [] cfg.sm.kind = "plaintext" -> SigningKey(cfg)
               [] cfg.sm.kind = "hmac" -> HmacSignature(cfg, FedBase(x.s))
               [] OTHER -> <<>>
  IN  \/ MayPanic(EndWithin(x, sig, run.limits))
      \/ cfg.sm.kind = "rsa" /\ run.refused

Init == caseNo \in DOMAIN Runs /\ pos = 0 /\ x = [s |-> <<>>, stuck |-> FALSE, may |-> FALSE]

Next ==
  /\ caseNo' = caseNo
  /\ \/ /\ pos = 0
        /\ x' = OpenWithin(run.cfg, None, run.limits)
        /\ IF Panics(0) THEN MayPanic(x') /\ pos' = Len(run.ev) + 2 ELSE x'.s.phase = "open" /\ pos' = 1
     \/ /\ pos \in 1..Len(run.ev)
        /\ x' = StepWithin(x, run.ev[pos], run.limits)
        /\ IF Panics(pos) THEN MayPanic(x') /\ pos' = Len(run.ev) + 2 ELSE x'.s.phase = "open" /\ pos' = pos + 1
     \/ /\ pos = Len(run.ev) + 1
        /\ x' = x
        /\ (IF Panics(pos) THEN EndMayPanic ELSE EndOk) = TRUE
        /\ pos' = pos + 1
     \/ pos > Len(run.ev) + 1 /\ UNCHANGED <<pos, x>>

Spec == Init /\ [][Next]_<<caseNo, pos, x>>

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, stuck |-> x.stuck, expected |-> IF pos > 0 THEN x.s.out ELSE <<>>]
==============================================================================
