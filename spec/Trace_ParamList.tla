--------------------------- MODULE Trace_ParamList ---------------------------
(***************************************************************************)
(* Validation of histories of a parameter list: a run is [ev], each event  *)
(* [op, arg, res, views]: what the operation was given, the list that it   *)
(* left as seen when taken apart ([] if it gave none), and the same list   *)
(* as seen through each of its views.                                      *)
(***************************************************************************)
EXTENDS ParamList, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, list

Init == caseNo \in DOMAIN Runs /\ pos = 1 /\ list = <<>>

Next ==
  LET ev == Runs[caseNo].ev
  IN  \/ /\ pos <= Len(ev)
         /\ LET e == ev[pos]
                a == After(list, e.op, e.arg)
            IN  /\ e.res = a
                /\ a # <<>> => \A i \in DOMAIN e.views : e.views[i] = a[1]
                /\ list' = IF a = <<>> THEN <<>> ELSE a[1]
         /\ pos' = pos + 1
         /\ UNCHANGED caseNo
      \/ /\ pos > Len(ev)
         /\ UNCHANGED <<caseNo, pos, list>>

Spec == Init /\ [][Next]_<<caseNo, pos, list>>

Inv == InOrder(list) /\ (pos > 1 => ArrangedOk(Runs[caseNo].ev[pos - 1].arg))

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, list |-> list,
          expected |-> IF pos <= Len(Runs[caseNo].ev)
                       THEN After(list, Runs[caseNo].ev[pos].op, Runs[caseNo].ev[pos].arg) ELSE <<>>]
=============================================================================
