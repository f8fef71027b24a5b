----------------------------- MODULE Trace_Feed -----------------------------
(***************************************************************************)
(* Trace validation of what requests feed to a serializer: a run is        *)
(* [req, calls, again], the calls of two serializations of one request, or *)
(* [fields, wrap, calls, again] for a derived one.                         *)
(* The calls are consumed one by one against the feeding of Requests.      *)
(***************************************************************************)
EXTENDS Derive, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, todo

ReqOf(r) == IF "fields" \in DOMAIN r THEN DerivedRequest(r.fields, r.wrap) ELSE r.req

Expected(r) == Append(FeedCalls(ReqOf(r)), <<"end">>)

Init ==
  /\ caseNo \in DOMAIN Runs
  /\ pos = 1
  /\ todo = Expected(Runs[caseNo])

Next ==
  LET r == Runs[caseNo]
  IN  \/ /\ todo # <<>>
         /\ pos <= Len(r.calls)
         /\ r.calls[pos] = Head(todo)
         /\ todo' = Tail(todo)
         /\ pos' = pos + 1
         /\ UNCHANGED caseNo
      \/ /\ todo = <<>>
         /\ pos > Len(r.calls)
         /\ r.again = r.calls
         /\ UNCHANGED <<caseNo, pos, todo>>

Spec == Init /\ [][Next]_<<caseNo, pos, todo>>

\* What is fed is in order and complete.
Inv == pos = 1 => InvFeed(ParamsOf(ReqOf(Runs[caseNo])))

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, expected |-> todo]
=============================================================================
