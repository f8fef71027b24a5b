------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* Serializers fed in any order at all: which steps are reported as misuse *)
(* and which are not.  Every behaviour that ends or panics is printed.     *)
(***************************************************************************)
EXTENDS Session, Json
LOCAL INSTANCE SequencesExt

CONSTANTS Cfgs, MaxSteps, Events

VARIABLES sess, hist

Init == \E cf \in Cfgs : sess = Open(cf, [nonce |-> B("fresh"), ts |-> B("1318622958")]) /\ hist = <<>>

Emit(t, h) ==
  PrintT(ToJson([cfg |-> t.cfg, ev |-> h, phase |-> t.phase, out |-> t.out]))

\* An open state that may go on, one that panicked at opening, one that ended.
Feed(e) ==
  /\ sess.phase = "open"
  /\ Len(hist) < MaxSteps
  /\ sess' = Step(sess, e)
  /\ hist' = Append(hist, e)
  /\ sess'.phase = "panicked" => Emit(sess', hist')

Finish ==
  /\ sess.phase = "open"
  /\ sess' = End(sess, sess.cfg.sm.sig)
  /\ Emit(sess', hist)
  /\ UNCHANGED hist

Next == Finish \/ \E e \in Events : Feed(e)

Spec == Init /\ [][Next]_<<sess, hist>>

Inv == SessionInv(sess)

\* Panics are exactly descending names in an authorizer of a debug build and
\* question marks in its URI.
NameOf(e) == IF e.op = "param" THEN e.k ELSE SlotName[e.slot]
Counts(cf, e) == e.op = "param" \/ InForce(cf, e.slot)
Fed == SelectSeq(hist, LAMBDA e : Counts(sess.cfg, e))
Descends == \E i \in 1..(Len(Fed) - 1) : Lt(NameOf(Fed[i+1]), NameOf(Fed[i]))
InvMisuse ==
  (sess.phase = "panicked") <=>
    (Authorized(sess.cfg) /\ sess.cfg.debug /\ (Occurs(sess.cfg.uri, Question) \/ Descends))

\* ------------------------------------------------------------ the sets ----
Method == [kind |-> "record", name |-> B("RECORD"), sig |-> B("s"), use_nonce |-> TRUE, use_ts |-> FALSE,
           hooks |-> <<>>, n |-> <<>>, e |-> 0]
Base == [mode |-> "header", buf |-> <<>>, method |-> B("GET"), uri |-> B("http://h/p"),
         cid |-> B("c"), csec |-> B("cs"), token |-> <<>>, callback |-> <<B("oob")>>, verifier |-> <<>>,
         nonce |-> <<B("n")>>, timestamp |-> <<B("7")>>, version |-> FALSE, sm |-> Method,
         debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
AllCfgs ==
  { [Base EXCEPT !.mode = m, !.uri = u, !.debug = d, !.order = d] :
      m \in {"header", "form", "query", "pform", "pquery"},
      u \in {B("http://h/p"), B("http://h/p?q=1"), B("?")}, d \in BOOLEAN }
P(k) == [op |-> "param", k |-> B(k), v |-> B("1"), enc |-> FALSE]
S(i) == [op |-> "proto", slot |-> i]
SomeEvents == { P("a"), P("oauth_consumer_kez"), P("oauth_nonce0"), P("z"), S(1), S(3), S(5), S(6) }
=============================================================================
