------------------------------ MODULE MC_Debug ------------------------------
(***************************************************************************)
(* Two uses of the library in lockstep that differ in nothing but the      *)
(* secrets.  Whatever is fed, until the signature is asked for their public *)
(* parts are the same, so that what may be shown of them is.  The uses are *)
(* printed and carried out.                                                *)
(***************************************************************************)
EXTENDS Debug, Json

CONSTANT MaxSteps

VARIABLES a, b, hist

vars == <<a, b, hist>>

Method(kind) == [kind |-> kind, name |-> B("X"), sig |-> B("s"), use_nonce |-> TRUE, use_ts |-> TRUE, hooks |-> <<>>, n |-> <<>>, e |-> 0]
Base == [mode |-> "header", buf |-> <<>>, method |-> B("GET"), uri |-> B("http://h/p"),
         cid |-> B("clientname"), csec |-> <<>>, token |-> <<>>, callback |-> <<B("oob")>>, verifier |-> <<>>,
         nonce |-> <<B("n")>>, timestamp |-> <<B("7")>>, version |-> FALSE, sm |-> Method("record"),
         debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
Secrets == {B(""), B("qwrtx"), B("&%=")}

Cfgs == { [Base EXCEPT !.mode = m, !.token = t, !.sm = Method(k)] :
            m \in {"header", "form", "query"}, t \in {<<>>, <<B("tokenname"), <<>>>>}, k \in {"hmac", "plaintext"} }
With(cfg, p) == [cfg EXCEPT !.csec = p[1], !.token = IF @ = <<>> THEN @ ELSE <<@[1], p[2]>>]

Pairs == {<<p, q>> \in (Secrets \X Secrets) \X (Secrets \X Secrets) : p # q}
Fresh == [nonce |-> B("f"), ts |-> B("1")]

Events == { [op |-> "param", k |-> B("a"), v |-> B("1"), enc |-> FALSE], [op |-> "param", k |-> B("z"), v |-> B("qwr"), enc |-> TRUE],
            [op |-> "proto", slot |-> 2], [op |-> "proto", slot |-> 6], [op |-> "all"] }

\* (A few of the pairs of secrets for each configuration; all of them together.)
Some == {<< <<B(""), B("")>>, <<B("qwrtx"), B("")>> >>, << <<B(""), B("qwrtx")>>, <<B(""), B("&%=")>> >>,
         << <<B("qwrtx"), B("&%=")>>, <<B("&%="), B("qwrtx")>> >>}
ASSUME Some \subseteq Pairs

Init == \E cf \in Cfgs, p \in Some : a = Open(With(cf, p[1]), Fresh) /\ b = Open(With(cf, p[2]), Fresh) /\ hist = <<>>

Feed(e) ==
  /\ a.phase = "open" /\ Len(hist) < MaxSteps
  /\ Step(a, e).phase = "open"
  /\ a' = Step(a, e) /\ b' = Step(b, e) /\ hist' = Append(hist, e)

Finish ==
  /\ Len(hist) = MaxSteps
  /\ PrintT(ToJson([cfg |-> a.cfg, ev |-> hist,
                    secrets |-> <<<<a.cfg.csec, a.cfg.token>>, <<b.cfg.csec, b.cfg.token>>>>]))
  /\ UNCHANGED vars

Next == Finish \/ \E e \in Events : Feed(e)

Spec == Init /\ [][Next]_vars

Inv == PublicSession(a) = PublicSession(b) /\ a.phase = b.phase
=============================================================================
