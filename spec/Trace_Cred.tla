----------------------------- MODULE Trace_Cred -----------------------------
(***************************************************************************)
(* Validation of credentials.  A run is                                    *)
(*   [fields, got]     a map given to the deserializer and the credentials *)
(*                     it made of it ([] if it refused),                   *)
(*   [cred, wrote, back]  credentials, the fields they were serialized to, *)
(*                     and what those were deserialized to again, or       *)
(*   [ev]              conversions: each event with the components of the  *)
(*                     result as seen through each view, and what the      *)
(*                     mapping function was applied to.                    *)
(***************************************************************************)
EXTENDS Cred, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, s

Events == LET r == Runs[caseNo] IN IF "ev" \in DOMAIN r THEN r.ev ELSE <<>>

RunOk(r) ==
  /\ "fields" \in DOMAIN r => r.got = De(r.fields)
  /\ "cred" \in DOMAIN r => r.wrote = Ser(r.cred) /\ r.back = De(Ser(r.cred))

EventOk(e) ==
  /\ \A i \in DOMAIN e.views : e.views[i] = ConvValue(s, e)
  /\ BagOf(e.args) = BagOf(ConvArgs(s, e))

Init == caseNo \in DOMAIN Runs /\ pos = 1 /\ s = ConvInit

Next ==
  \/ /\ pos <= Len(Events)
     /\ ConvEnabled(s, Events[pos])
     /\ EventOk(Events[pos]) = TRUE
     /\ s' = ConvApply(s, Events[pos])
     /\ pos' = pos + 1
     /\ caseNo' = caseNo
  \/ /\ pos > Len(Events)
     /\ RunOk(Runs[caseNo]) = TRUE
     /\ UNCHANGED <<caseNo, pos, s>>

Spec == Init /\ [][Next]_<<caseNo, pos, s>>

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, registers |-> s]
=============================================================================
