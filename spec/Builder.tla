------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* Builders: a store of registers, each empty (<<>>) or holding a builder. *)
(* A builder is <<settings>>, a record of what it was created with and the *)
(* value most recently set for each of its six settings.                   *)
(*                                                                         *)
(* Events:                                                                 *)
(*   [op "new",  r, cid, csec]              Builder::new                   *)
(*   [op "with_token", r, cid, csec, v]     Builder::with_token            *)
(*   [op "set", r, field, v]                set (<<..>>) or unset (<<>>)   *)
(*   [op "clone", r, to]                                                   *)
(*   [op "drop", r]                                                        *)
(*   [op "sign", r, entry, method, uri, buf, req, out, calls, clock]       *)
(*        entries named into_... consume the builder                       *)
(***************************************************************************)
EXTENDS Observe

NewBuilder(cid, csec) ==
  [cid |-> cid, csec |-> csec, token |-> <<>>, callback |-> <<>>, verifier |-> <<>>,
   nonce |-> <<>>, timestamp |-> <<>>, version |-> FALSE]

SetField(b, field, v) ==
  CASE field = "token"     -> [b EXCEPT !.token = v]
    [] field = "callback"  -> [b EXCEPT !.callback = v]
    [] field = "verifier"  -> [b EXCEPT !.verifier = v]
    [] field = "nonce"     -> [b EXCEPT !.nonce = v]
    [] field = "timestamp" -> [b EXCEPT !.timestamp = v]
    [] field = "version"   -> [b EXCEPT !.version = v]

\* Entry points that consume the builder.
Consuming == {"into_authorization", "into_form", "into_query",
              "into_authorization_with_buf", "into_form_with_buf"}

\* What a request through builder b amounts to.
SignCfg(b, sm, e) ==
  EntryCfg(b @@ [mode |-> "", buf |-> e.buf, method |-> e.method, uri |-> e.uri, sm |-> sm,
                 debug |-> TRUE, order |-> TRUE, clock |-> TRUE], e.entry)

ApplyOp(regs, e) ==
  CASE e.op = "new"        -> [regs EXCEPT ![e.r] = <<NewBuilder(e.cid, e.csec)>>]
    [] e.op = "with_token" -> [regs EXCEPT ![e.r] = <<SetField(NewBuilder(e.cid, e.csec), "token", e.v)>>]
    [] e.op = "set"        -> [regs EXCEPT ![e.r] = <<SetField(@[1], e.field, e.v)>>]
    [] e.op = "clone"      -> [regs EXCEPT ![e.to] = regs[e.r]]
    [] e.op = "drop"       -> [regs EXCEPT ![e.r] = <<>>]
    [] e.op = "sign"       -> IF e.entry \in Consuming THEN [regs EXCEPT ![e.r] = <<>>] ELSE regs

Enabled(regs, e) == e.op \in {"new", "with_token"} \/ regs[e.r] # <<>>
=============================================================================
