------------------------------ MODULE MC_Pairs ------------------------------
(***************************************************************************)
(* A request and what becomes of it when it is tampered with a few times:  *)
(* the signed text stays the same exactly as long as the request says the  *)
(* same.  The pairs are printed and both are carried out.                  *)
(***************************************************************************)
EXTENDS Pairs, Json

CONSTANT MaxTampers

VARIABLES orig, now, so, sn, times

\* so, sn: the session of either, ended.
vars == <<orig, now, so, sn, times>>

Method == [kind |-> "record", name |-> B("RECORD"), sig |-> B("s%2F"), use_nonce |-> TRUE, use_ts |-> TRUE,
           hooks |-> <<>>, n |-> <<>>, e |-> 0]
Base == [mode |-> "form", buf |-> <<>>, method |-> B("GET"), uri |-> B("h/p"),
         cid |-> B("c"), csec |-> B("cs"), token |-> <<>>, callback |-> <<>>, verifier |-> <<>>,
         nonce |-> <<B("n")>>, timestamp |-> <<B("7")>>, version |-> FALSE, sm |-> Method,
         debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
P(k, v, ec) == [k |-> k, v |-> v, enc |-> ec]
Fresh == [nonce |-> B("f"), ts |-> B("1")]

Seeds ==
  { [cfg |-> Base, params |-> << P(B("a"), B("1"), FALSE), P(B("b"), B("%26"), FALSE) >>],
    [cfg |-> [Base EXCEPT !.mode = "header", !.token = <<B("t"), B("ts")>>, !.callback = <<B("a&b=c")>>],
     params |-> << P(B("z"), B("=&"), FALSE) >>],
    [cfg |-> [Base EXCEPT !.mode = "query", !.verifier = <<B("%3D")>>, !.cid = B(",\"")],
     params |-> << P(B("a"), B("%2526"), TRUE), P(B("a"), B("+ "), FALSE) >>] }

Ended(r) == TLCEval(End(TLCEval(Authorize(r, Fresh)), r.cfg.sm.sig))

Init == orig \in Seeds /\ now = orig /\ so = Ended(orig) /\ sn = so /\ times = 0

Tamper ==
  /\ times < MaxTampers
  /\ \E x \in Tampered(now) : now' = x
  /\ sn' = Ended(now')
  /\ times' = times + 1
  /\ UNCHANGED <<orig, so>>

Spec == Init /\ [][Tamper]_vars

View == <<orig, now>>

Same == FedBase(so) = FedBase(sn)

Inv ==
  /\ AgreeOn(Same, orig, now, Fresh)
  /\ SessionInv(sn)
  /\ times > 0 => PrintT(ToJson([orig |-> orig, now |-> now, same |-> Same]))
=============================================================================
