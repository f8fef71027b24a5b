----------------------------- MODULE Trace_Flow -----------------------------
(***************************************************************************)
(* Validation of recorded flows: a run is [w, sm, ev]: what the client did *)
(* with the library, what it put on the wire, and what the server and an   *)
(* attacker did in between.                                                *)
(*   new, with_token, token, set, clone, drop    operations on builders    *)
(*   ask, free    a request through a builder, by a free function          *)
(*   grant        credentials in a response, and what was read out of it   *)
(*   approve      the resource owner approves temporary credentials        *)
(*   again        a message is delivered once more                         *)
(*   altered      a message somebody made of one of the client's           *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Registers == 1..4
Places == 1..8

VARIABLES caseNo, pos, regs, creds, srv, wire

vars == <<caseNo, pos, regs, creds, srv, wire>>

World == Runs[caseNo].w
Events == Runs[caseNo].ev

Init ==
  /\ caseNo \in DOMAIN Runs /\ pos = 1
  /\ regs = [r \in Registers |-> <<>>] /\ creds = [k \in Places |-> <<>>] /\ srv = NewServer /\ wire = <<>>

\* Would the server have to accept what the client means?
Entitled(cfg, fresh) ==
  LET proto == ProtoPairs(cfg, fresh.nonce, fresh.ts)
      client == IndexWhere(World.clients, LAMBDA k : k.cid = cfg.cid)
      nothing == <<>>
      \* (RSA signatures involve no shared secrets.)
      shared == cfg.sm.kind # "rsa"
      secret == IF cfg.token = nothing THEN <<<<>>>> ELSE SecretOf(World, srv, cfg.uri, cfg.cid, cfg.token[1])
  IN  /\ client # 0 /\ (shared => World.clients[client].csec = cfg.csec)
      /\ secret # nothing /\ (shared /\ cfg.token # nothing => secret = <<cfg.token[2]>>)
      /\ Allowed(World, srv, cfg.uri, proto) # nothing
      /\ <<cfg.cid, IF cfg.token = nothing THEN nothing ELSE cfg.token[1], ValueOf(proto, SlotName[5]), ValueOf(proto, SlotName[3])>> \notin srv.seen

AskOk(cfg, e, v) ==
  LET said == Said(e.m)
      fresh == [nonce |-> ValueOf(said[3], SlotName[3]), ts |-> ValueOf(said[3], SlotName[5])]
  IN  /\ said = Meant(cfg, e.req, fresh)
      /\ v.ok = Entitled(cfg, fresh)
      /\ cfg.nonce = <<>> => FreshNonce(fresh.nonce)
      /\ cfg.timestamp = <<>> => TimeOk(e.clock, fresh.ts)

\* What a free function is called with.
FreeCfg(e) ==
  EntryCfg([NewBuilder(e.cid, e.csec) EXCEPT !.token = creds[e.k]]
             @@ [mode |-> "", buf |-> <<>>, method |-> e.method, uri |-> e.uri, sm |-> Runs[caseNo].sm,
                 debug |-> TRUE, order |-> TRUE, clock |-> TRUE], e.entry)

Next ==
  \/ /\ pos <= Len(Events)
     /\ LET e == Events[pos]
        IN  CASE e.op \in {"ask", "free"} ->
                   LET cfg == IF e.op = "free" THEN FreeCfg(e) ELSE SignCfg(regs[e.r][1], Runs[caseNo].sm, e)
                       v == TLCEval(Verdict(World, srv, e.m))
                   IN  /\ AskOk(cfg, e, v) = TRUE
                       /\ srv' = Accepted(srv, v)
                       /\ wire' = Append(wire, e.m)
                       /\ regs' = IF e.op = "free" THEN regs ELSE ApplyOp(regs, [e EXCEPT !.op = "sign"])
                       /\ UNCHANGED creds
              [] e.op = "grant" ->
                   /\ (e.got = <<e.id, e.sec>>) = TRUE
                   /\ (e.fmt = "form" => Response(e.text) = <<e.id, e.sec>>) = TRUE
                   /\ creds' = [creds EXCEPT ![e.k] = <<e.id, e.sec>>]
                   /\ srv' = IF srv.due = <<>> THEN srv ELSE Grant(srv, e.id, e.sec)
                   /\ UNCHANGED <<regs, wire>>
              [] e.op = "approve" ->
                   LET i == IndexWhere(srv.temps, LAMBDA t : t.id = e.id)
                   IN  /\ srv' = IF i = 0 THEN srv ELSE Approve(srv, i, e.verifier)
                       /\ UNCHANGED <<regs, creds, wire>>
              [] e.op = "again" ->
                   /\ Verdict(World, srv, wire[e.of]).ok = FALSE
                   /\ UNCHANGED <<regs, creds, srv, wire>>
              [] e.op = "altered" ->
                   /\ Verdict(World, srv, e.m).ok = FALSE
                   /\ UNCHANGED <<regs, creds, srv, wire>>
              [] e.op \in {"with_token", "token"} ->
                   LET b == IF e.op = "token" THEN regs[e.r][1] ELSE NewBuilder(e.cid, e.csec)
                   IN  /\ regs' = [regs EXCEPT ![e.r] = <<SetField(b, "token", IF e.k = 0 THEN <<>> ELSE creds[e.k])>>]
                       /\ UNCHANGED <<creds, srv, wire>>
              [] OTHER ->
                   /\ Enabled(regs, e)
                   /\ regs' = ApplyOp(regs, e)
                   /\ UNCHANGED <<creds, srv, wire>>
     /\ pos' = pos + 1
     /\ caseNo' = caseNo
  \/ pos > Len(Events) /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

\* However the run goes on: what the server hands out stays in order.
InvServer ==
  /\ \A i \in DOMAIN srv.toks : srv.temps[srv.toks[i].temp].cid = srv.toks[i].cid /\ srv.temps[srv.toks[i].temp].used
  /\ \A i, j \in DOMAIN srv.toks : i # j => srv.toks[i].temp # srv.toks[j].temp

View == <<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, srv |-> srv]
=============================================================================
