----------------------------- MODULE Trace_Debug -----------------------------
(***************************************************************************)
(* Validation of debug output: a run is [stages], the stages of two uses   *)
(* that differ in nothing but the secrets, each stage [a, b, names]: what  *)
(* was printed in either use, and the identifiers it has to show (all of   *)
(* them strings).                                                          *)
(***************************************************************************)
EXTENDS Debug, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos

Init == caseNo \in DOMAIN Runs /\ pos = 1

StageOk(x) == x.a = x.b /\ \A i \in DOMAIN x.names : Within(x.names[i], x.a)

Next ==
  LET st == Runs[caseNo].stages
  IN  \/ pos <= Len(st) /\ StageOk(st[pos]) = TRUE /\ pos' = pos + 1 /\ UNCHANGED caseNo
      \/ pos > Len(st) /\ UNCHANGED <<caseNo, pos>>

Spec == Init /\ [][Next]_<<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos]
=============================================================================
