----------------------------- MODULE Trace_Pairs -----------------------------
(***************************************************************************)
(* Validation of pairs of requests: a run is [one, two, wire], two requests *)
(* the library authorized, each [cfg, params, out, calls], and alterations  *)
(* of the first one's output.                                              *)
(*  1, 2  a receiver of either rebuilds the text that was signed           *)
(*  3     the signed texts are the same for the same meaning only          *)
(*  4     altering what is transmitted alters the signed text, unless it   *)
(*        says the same                                                    *)
(* Where a method of the library signs, the signature stands for the text  *)
(* when both are signed with the same secrets.                             *)
(***************************************************************************)
EXTENDS Pairs, Observe, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos

Init == caseNo \in DOMAIN Runs /\ pos = 1

Recording(x) == x.cfg.sm.kind = "record"
Signed(x) == CallsBase(x.cfg, x.calls)
FreshOf(x) == Transmitted(x.cfg, x.out)
Sane(x) == NoCollision(x.params) /\ \A i \in DOMAIN x.params : Canonical(x.params[i])

Rebuilt(x) == Sane(x) /\ Recording(x) => ReceiverBase(x.cfg, x.out, x.params) = Signed(x)

SameKey(x, y) ==
  /\ x.cfg.sm.kind = "hmac" /\ y.cfg.sm.kind = "hmac"
  /\ SigningKey(x.cfg) = SigningKey(y.cfg)

Distinct(x, y) ==
  LET r == [cfg |-> x.cfg, params |-> x.params]
      \* Each with the nonce and the timestamp it was sent with.
      pin(z) == [cfg |-> [z.cfg EXCEPT !.nonce = <<FreshOf(z).nonce>>, !.timestamp = <<FreshOf(z).ts>>], params |-> z.params]
      nothing == [nonce |-> <<>>, ts |-> <<>>]
  IN  CASE Recording(x) /\ Recording(y) -> AgreeOn(Signed(x) = Signed(y), pin(x), pin(y), nothing)
        [] SameKey(x, y) -> AgreeOn(SignatureOf(x.cfg, x.out) = SignatureOf(y.cfg, y.out), pin(x), pin(y), nothing)
        [] OTHER -> TRUE

WireOk(x, out) ==
  Sane(x) /\ Recording(x) /\ ReceiverBase(x.cfg, out, x.params) = Signed(x)
    => ReceivedMeaning(x.cfg, out, x.params) = Meaning(x.cfg, x.params, FreshOf(x))

Next ==
  LET r == Runs[caseNo]
  IN  \/ /\ \/ pos = 1 /\ Rebuilt(r.one) = TRUE
            \/ pos = 2 /\ Rebuilt(r.two) = TRUE
            \/ pos = 3 /\ Distinct(r.one, r.two) = TRUE
            \/ pos = 4 /\ (\A i \in DOMAIN r.wire : WireOk(r.one, r.wire[i])) = TRUE
         /\ pos' = pos + 1 /\ UNCHANGED caseNo
      \/ pos = 5 /\ UNCHANGED <<caseNo, pos>>

Spec == Init /\ [][Next]_<<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos]
=============================================================================
