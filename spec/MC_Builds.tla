------------------------------ MODULE MC_Builds ------------------------------
(***************************************************************************)
(* The same use of every build in lockstep.  No two that get through       *)
(* differ, and without misuse all get through that have a clock or need    *)
(* none.  Uses that are no misuse are printed and carried out in builds of *)
(* the library.                                                            *)
(***************************************************************************)
EXTENDS Builds, Json

CONSTANTS MaxSteps

VARIABLES sess, hist

vars == <<sess, hist>>

Method(kind, nonce, ts) ==
  [kind |-> kind, name |-> IF kind = "record" THEN B("RECORD") ELSE B("PLAINTEXT"), sig |-> B("s%2F"), use_nonce |-> nonce, use_ts |-> ts,
   hooks |-> <<>>, n |-> <<>>, e |-> 0]
Base == [mode |-> "header", buf |-> <<>>, method |-> B("GET"), uri |-> B("http://h/p"),
         cid |-> B("c&"), csec |-> B("c/s"), token |-> <<B("t"), B("%")>>, callback |-> <<>>, verifier |-> <<B("v=")>>,
         nonce |-> <<B("n")>>, timestamp |-> <<B("7")>>, version |-> TRUE, sm |-> Method("record", TRUE, TRUE),
         debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
Cfgs ==
  { [Base EXCEPT !.mode = m, !.timestamp = t, !.sm = s, !.uri = u, !.buf = IF m = "query" THEN <<>> ELSE B("x")] :
      m \in {"header", "form", "query", "pform", "pquery"}, t \in {<<>>, <<B("7")>>},
      s \in {Method("record", TRUE, TRUE), Method("record", FALSE, FALSE), Method("plaintext", TRUE, TRUE)}, u \in {B("h"), B("h?")} }
Fresh == [nonce |-> B("f"), ts |-> B("1")]

P(k, v, ec) == [op |-> "param", k |-> B(k), v |-> B(v), enc |-> ec]
Events == { P("a", "&", FALSE), P("oauth_token_", "%26", TRUE), P("z", "", FALSE) } \cup {[op |-> "proto", slot |-> i] : i \in {2, 4, 5, 8}}

Init == \E cf \in Cfgs : sess = [b \in AllBuilds |-> Open(Built(cf, b), Fresh)] /\ hist = <<>>

Take(e) ==
  /\ Len(hist) < MaxSteps
  /\ \A b \in AllBuilds : sess[b].phase # "done"
  /\ sess' = [b \in AllBuilds |-> Step(sess[b], e)]
  /\ hist' = Append(hist, e)

End1(s) == IF s.phase = "open" THEN
             End(s, IF s.cfg.sm.kind = "plaintext" THEN SigningKey(s.cfg) ELSE s.cfg.sm.sig) ELSE s

Finish ==
  /\ \A b \in AllBuilds : sess[b].phase # "done"
  /\ sess' = [b \in AllBuilds |-> End1(sess[b])]
  /\ UNCHANGED hist

Next == Finish \/ \E e \in Events : Take(e)
Spec == Init /\ [][Next]_vars

NameOf(e) == IF e.op = "param" THEN e.k ELSE SlotName[e.slot]
One == sess[CHOOSE b \in AllBuilds : TRUE]
Misuse ==
  LET cfg == One.cfg
      fed == SelectSeq(hist, LAMBDA e : e.op = "param" \/ InForce(cfg, e.slot))
  IN  Authorized(cfg) /\ (Occurs(cfg.uri, Question) \/ \E i \in 1..(Len(fed) - 1) : Lt(NameOf(fed[i+1]), NameOf(fed[i])))
NeedsClock ==
  LET cfg == One.cfg
  IN  Authorized(cfg) /\ cfg.timestamp = <<>> /\ cfg.sm.use_ts /\ \E i \in DOMAIN hist : hist[i].op = "proto" /\ hist[i].slot = 5

InvAgree == \A b, c \in AllBuilds : Agree(sess[b], sess[c])
InvThrough == \A b \in AllBuilds : ~Misuse /\ (NeedsClock => b.std) => sess[b].phase # "panicked"
InvClock == \A b \in AllBuilds : NeedsClock /\ ~b.std => sess[b].phase = "panicked"

InvPrinted ==
  (\E b \in AllBuilds : sess[b].phase = "done") /\ ~Misuse =>
    PrintT(ToJson([cfg |-> One.cfg, ev |-> hist,
                   seen |-> {[std |-> b.std, alloc |-> b.alloc, debug |-> b.debug, phase |-> sess[b].phase,
                              out |-> sess[b].out, calls |-> sess[b].calls] : b \in AllBuilds}]))
=============================================================================
