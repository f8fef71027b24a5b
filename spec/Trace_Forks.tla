----------------------------- MODULE Trace_Forks -----------------------------
(***************************************************************************)
(* Validation of recorded histories of several serializers at once.  A run *)
(* is [cfgs, ev]; each event names its register, an end has the output and *)
(* the calls its signature method got.  (Events of different threads are   *)
(* in any order, as they touch different registers.)                       *)
(***************************************************************************)
EXTENDS Forks, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Registers == 1..4
None == [nonce |-> <<>>, ts |-> <<>>]

VARIABLES caseNo, pos, regs

run == Runs[caseNo]

Init == caseNo \in DOMAIN Runs /\ pos = 1 /\ regs = [r \in Registers |-> <<>>]

EndOk(s, e) ==
  LET cfg == s.cfg
      sig == IF ~Authorized(cfg) THEN <<<<>>>> ELSE IF cfg.sm.kind = "record" THEN <<cfg.sm.sig>> ELSE SignatureOf(cfg, e.out)
  IN  /\ sig # <<>>
      /\ LET t == End(s, sig[1])
         IN  /\ e.out = t.out
             /\ Authorized(cfg) => IF cfg.sm.kind = "record" THEN e.calls = t.calls ELSE SignatureOk(cfg, FedBase(s), sig[1])

Next ==
  \/ /\ pos <= Len(run.ev)
     /\ LET e == run.ev[pos]
        IN  /\ ForkEnabled(regs, e)
            /\ e.op = "end" => EndOk(regs[e.r][1], e) = TRUE
            /\ regs' = ForkApply(run.cfgs, regs, e, None)
            /\ \A r \in Registers : ForkAlive(regs', r) => regs'[r][1].phase = "open"
     /\ pos' = pos + 1
     /\ caseNo' = caseNo
  \/ pos > Len(run.ev) /\ UNCHANGED <<caseNo, pos, regs>>

Spec == Init /\ [][Next]_<<caseNo, pos, regs>>

Inv == \A r \in Registers : ForkAlive(regs, r) => SessionInv(regs[r][1])

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos,
          expected |-> IF pos <= Len(run.ev) /\ run.ev[pos].op = "end" /\ ForkAlive(regs, run.ev[pos].r)
                       THEN ForkResult(regs, run.ev[pos].r, <<>>) ELSE <<>>]
==============================================================================
