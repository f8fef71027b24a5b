--------------------------- MODULE Trace_Builder ---------------------------
(***************************************************************************)
(* Trace validation of histories of builders: a run is [sm, ev]; every     *)
(* request signed along the way has to be the one the current settings of  *)
(* its builder call for.                                                   *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Registers == 1..4

VARIABLES caseNo, pos, regs

Events == Runs[caseNo].ev

Init ==
  /\ caseNo \in DOMAIN Runs
  /\ pos = 1
  /\ regs = [r \in Registers |-> <<>>]

Next ==
  \/ /\ pos <= Len(Events)
     /\ LET e == Events[pos]
        IN  /\ Enabled(regs, e)
            /\ e.op = "sign" =>
                 RequestOk(SignCfg(regs[e.r][1], Runs[caseNo].sm, e), e.req, e.out, e.calls, e.clock) = TRUE
            /\ regs' = ApplyOp(regs, e)
     /\ pos' = pos + 1
     /\ caseNo' = caseNo
  \/ pos > Len(Events) /\ UNCHANGED <<caseNo, pos, regs>>

Spec == Init /\ [][Next]_<<caseNo, pos, regs>>

\* Signing changes nothing but what it consumes; setting changes one register.
Frame ==
  [][pos' = pos + 1 =>
       LET e == Events[pos]
           touched == IF e.op = "clone" THEN {e.to} ELSE {e.r}
       IN  \A r \in Registers \ touched : regs'[r] = regs[r]]_<<caseNo, pos, regs>>

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, regs |-> regs]
=============================================================================
