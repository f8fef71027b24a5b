----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* The sessions of Session, explored exhaustively over small but complete  *)
(* sets of configurations and requests.  Every behaviour that ends is      *)
(* printed, so that the very same steps can be taken by the real library.  *)
(***************************************************************************)
EXTENDS Requests, Json, IOUtils
LOCAL INSTANCE SequencesExt

CONSTANTS Cfgs,   \* configurations
          Reqs    \* requests

VARIABLES sess, todo, req

Fresh == [nonce |-> B("fresh"), ts |-> B("1318622958")]

Init ==
  \E cf \in Cfgs, rq \in Reqs :
    /\ req = rq
    /\ sess = Open(cf, Fresh)
    /\ todo = FeedOf(ParamsOf(rq))

Emit(t) ==
  PrintT(ToJson([cfg |-> t.cfg, req |-> req, out |-> t.out, calls |-> t.calls,
                 base |-> FedBase(t)]))

Next ==
  \/ /\ todo # <<>>
     /\ sess' = Step(sess, Head(todo))
     /\ todo' = Tail(todo)
     /\ UNCHANGED req
  \/ /\ todo = <<>>
     /\ sess.phase = "open"
     /\ sess' = End(sess, sess.cfg.sm.sig)
     /\ Emit(sess')
     /\ UNCHANGED <<todo, req>>

Spec == Init /\ [][Next]_<<sess, todo, req>>

Inv == SessionInv(sess)
InvFeeding == InvFeed(ParamsOf(req))
\* Feeding in order is no misuse.
InvNoPanic == sess.phase # "panicked"

\* ------------------------------------------- building blocks of the sets ----
Method == [kind |-> "record", name |-> B("RECORD"), sig |-> B("s%2F"), use_nonce |-> TRUE, use_ts |-> TRUE,
           hooks |-> <<>>, n |-> <<>>, e |-> 0]
Hooked == [Method EXCEPT !.hooks = HookOf]
Base == [mode |-> "header", buf |-> <<>>, method |-> B("GET"), uri |-> B("http://h/p"),
         cid |-> B("c&"), csec |-> B("cs"), token |-> <<>>, callback |-> <<>>, verifier |-> <<>>,
         nonce |-> <<B("n=1")>>, timestamp |-> <<B("7")>>, version |-> FALSE, sm |-> Method,
         debug |-> TRUE, order |-> TRUE, clock |-> TRUE]

Auth == {"header", "form", "query"}
Modes == Auth \cup {"pform", "pquery"}
Opt(x) == {<<>>, <<x>>}
P(k, v, ec) == [k |-> k, v |-> v, enc |-> ec]
Vec(ps) == [kind |-> "vec", wrap |-> <<>>, params |-> ps]

\* Smaller sets for the quick tier.
Thorough == "DEPTH" \in DOMAIN IOEnv /\ IOEnv.DEPTH = "thorough"
=============================================================================
