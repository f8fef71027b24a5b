--------------------------- MODULE Trace_Recorder ---------------------------
(***************************************************************************)
(* Validation of recorders: a run is [ev], each event with what was seen   *)
(* at it; or [records, equal], records in several representations and the  *)
(* results of comparing each with each (row: left operand); or [constant], *)
(* the protocol parameters according to the library.                       *)
(***************************************************************************)
EXTENDS Recorder, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Registers == 1..3

VARIABLES caseNo, pos, regs

Events == LET r == Runs[caseNo] IN IF "ev" \in DOMAIN r THEN r.ev ELSE <<>>

EqualOk(r) ==
  \A i \in DOMAIN r.records :
    \A j \in DOMAIN r.records : r.equal[i][j] = (r.records[i] = r.records[j])

Init ==
  /\ caseNo \in DOMAIN Runs
  /\ pos = 1
  /\ regs = [r \in Registers |-> <<>>]

RunOk(r) ==
  /\ "records" \in DOMAIN r => EqualOk(r) /\ \A i \in DOMAIN r.records : IsCall(r.records[i])
  /\ "constant" \in DOMAIN r => r.constant = ProtocolCalls

Next ==
  \/ /\ pos <= Len(Events)
     /\ LET e == Events[pos]
        IN  /\ RecEnabled(regs, e)
            /\ (e.seen = RecSeen(regs, e)) = TRUE
            /\ regs' = RecApply(regs, e)
     /\ pos' = pos + 1
     /\ caseNo' = caseNo
  \/ /\ pos > Len(Events)
     /\ RunOk(Runs[caseNo]) = TRUE
     /\ UNCHANGED <<caseNo, pos, regs>>

Spec == Init /\ [][Next]_<<caseNo, pos, regs>>

Frame ==
  [][pos' = pos + 1 =>
       LET e == Events[pos]
           touched == IF e.op = "clone" THEN {e.to} ELSE IF e.op = "same" THEN {} ELSE {e.r}
       IN  \A r \in Registers \ touched : regs'[r] = regs[r]]_<<caseNo, pos, regs>>

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, regs |-> regs]
=============================================================================
