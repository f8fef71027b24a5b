---------------------------- MODULE Trace_Macro ----------------------------
(***************************************************************************)
(* Validation of what the compiler reports for items that derive a         *)
(* request: a run is [item, typed, errors], the lines of its errors in     *)
(* order; typed says that the compiler got as far as types.                *)
(* Each error must be one that may be reported there; in the end all that  *)
(* had to be reported must have been, and nothing for an item that is      *)
(* right.                                                                  *)
(***************************************************************************)
EXTENDS Macro, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, seen

May(r, line) == IF r.typed THEN MayReportType(r.item, line) ELSE MayReport(r.item, line)
MustHave(r, lines) == IF r.typed THEN MustHaveReportedTypes(r.item, lines) ELSE MustHaveReported(r.item, lines)

\* The compiler only gets that far where nothing is wrong before.
ASSUME \A i \in DOMAIN Runs : Runs[i].typed => ~Wrong(Runs[i].item)

Init == caseNo \in DOMAIN Runs /\ pos = 1 /\ seen = {}

Next ==
  LET r == Runs[caseNo]
  IN  \/ /\ pos <= Len(r.errors)
         /\ May(r, r.errors[pos]) = TRUE
         /\ seen' = seen \cup {r.errors[pos]}
         /\ pos' = pos + 1
         /\ UNCHANGED caseNo
      \/ /\ pos > Len(r.errors)
         /\ MustHave(r, seen) = TRUE
         /\ UNCHANGED <<caseNo, pos, seen>>

Spec == Init /\ [][Next]_<<caseNo, pos, seen>>

Inv == ~Runs[caseNo].typed /\ ~Wrong(Runs[caseNo].item) => seen = {}

Alias == [case |-> caseNo, at |-> pos, seen |-> seen, required |-> RequiredLines(Runs[caseNo].item),
          allowed |-> AllowedLines(Runs[caseNo].item), groups |-> Groups(Runs[caseNo].item)]
=============================================================================
