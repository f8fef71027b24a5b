------------------------------ MODULE MC_Flow ------------------------------
(***************************************************************************)
(* A client goes through the flow in every way it can; a network delivers  *)
(* its messages, and an attacker, who reads them all and is a registered   *)
(* client too, delivers them again, puts parts of them together, rewrites  *)
(* them, and makes up messages with the secrets it has.                    *)
(*                                                                         *)
(* Without an attack every message is accepted and says what the client    *)
(* means; with attacks nothing is accepted in the client's name that it    *)
(* has not said, nor twice what it has said once, and credentials go to    *)
(* the client whose request was approved.                                  *)
(***************************************************************************)
EXTENDS Flow, Json
LOCAL INSTANCE SequencesExt

CONSTANTS WithHows, WithStyles, MaxAttacks, Kinds

VARIABLES kind, stage, srv, reg, creds, pending, wire, said, taken, refused, attacks, hist

vars == <<kind, stage, srv, reg, creds, pending, wire, said, taken, refused, attacks, hist>>

\* stage    1..3: the requests made so far
\* pending  <<>> or <<message>>: sent and not yet delivered
\* wire     messages the attacker has seen
\* said     what the client meant to say, in order
\* taken    what was accepted in the client's name, in order
\* refused  how many messages the network delivered in vain
\* hist     what the client did

Method(k) == [kind |-> k, name |-> IF k = "hmac" THEN B("HMAC-SHA1") ELSE B("PLAINTEXT"), sig |-> <<>>, use_nonce |-> TRUE,
              use_ts |-> TRUE, hooks |-> <<>>, n |-> <<>>, e |-> 0]
Alice == [cid |-> B("a&"), csec |-> B("as"), sm |-> Method(kind)]
Eve == [cid |-> B("e"), csec |-> B("es"), sm |-> Method(kind)]
World == [clients |-> <<Alice, Eve>>, initiate |-> B("h/i"), token |-> B("h/t")]
Uri == <<World.initiate, World.token, B("h/r")>>
HttpMethod == <<B("POST"), B("POST"), B("GET")>>
Reqs == << [kind |-> "unit", wrap |-> <<>>, params |-> <<>>], [kind |-> "unit", wrap |-> <<>>, params |-> <<>>],
           [kind |-> "plist", wrap |-> <<>>, params |-> << [k |-> B("z"), v |-> B("=&"), enc |-> FALSE], [k |-> B("b"), v |-> B("% "), enc |-> FALSE] >>] >>
Nonce == <<B("n1"), B("n2"), B("n3")>>
Granted == << <<B("t=1"), B("ts&")>>, <<B("k"), B("ks")>> >>
Verifier == B("v+1")
Now == B("7")
NoFresh == [nonce |-> <<>>, ts |-> <<>>]

Init ==
  /\ kind \in Kinds
  /\ stage = 0 /\ srv = NewServer /\ reg = <<>> /\ creds = <<>> /\ pending = <<>> /\ wire = {} /\ said = <<>> /\ taken = <<>>
  /\ refused = 0 /\ attacks = 0 /\ hist = <<>>

\* The operations on the builder before request i, in style s: a builder of
\* its own for each request, or one for the whole flow.
Ops(i, s) ==
  LET set(f, v) == [op |-> "set", r |-> 1, field |-> f, v |-> v]
      start == IF s = "fresh" /\ i > 1 THEN <<[op |-> "with_token", r |-> 1, cid |-> Alice.cid, csec |-> Alice.csec, v |-> creds]>>
               ELSE IF reg = <<>> THEN <<[op |-> "new", r |-> 1, cid |-> Alice.cid, csec |-> Alice.csec]>>
               ELSE <<set("token", creds)>>
      own == CASE i = 1 -> <<set("callback", <<B("oob")>>)>>
               [] i = 2 -> <<set("verifier", <<Verifier>>)>> \o (IF s = "fresh" THEN <<>> ELSE <<set("callback", <<>>)>>)
               [] i = 3 -> IF s = "fresh" THEN <<set("version", TRUE)>> ELSE <<set("verifier", <<>>), set("callback", <<>>)>>
  IN  (start \o own) \o <<set("nonce", <<Nonce[i]>>), set("timestamp", <<Now>>)>>

\* In which place the client's credentials of request i are: the last granted.
Ask ==
  /\ stage < 3 /\ pending = <<>> /\ refused = 0
  /\ stage = 1 => Len(srv.temps) = 1 /\ srv.temps[1].verifier # <<>> /\ creds # <<>>
  /\ stage = 2 => Len(srv.toks) = 1 /\ creds = Granted[2]
  /\ \E how \in WithHows, style \in WithStyles :
       LET i == stage + 1
           ops == Ops(i, style)
           b == FoldLeft(ApplyOp, <<reg>>, ops)[1]
           cfg == TLCEval(b[1] @@ [mode |-> "", buf |-> <<>>, method |-> HttpMethod[i], uri |-> Uri[i], sm |-> Method(kind),
                                   debug |-> TRUE, order |-> TRUE, clock |-> TRUE])
           m == TLCEval(Message(cfg, how, Reqs[i], NoFresh))
       IN  /\ reg' = b
           /\ pending' = <<m>>
           /\ wire' = wire \cup {m}
           /\ said' = Append(said, Meant(cfg, Reqs[i], NoFresh))
           /\ hist' = Append(hist, [ops |-> ops, how |-> how, method |-> HttpMethod[i], uri |-> Uri[i], req |-> Reqs[i], m |-> m,
                                    after |-> creds])
  /\ stage' = stage + 1
  /\ UNCHANGED <<kind, srv, creds, taken, refused, attacks>>

Take(m) ==
  LET v == TLCEval(Verdict(World, srv, m))
  IN  /\ srv' = Accepted(srv, v)
      /\ taken' = IF v.ok /\ v.seen[1] = Alice.cid THEN Append(taken, Said(m)) ELSE taken

Deliver ==
  /\ pending # <<>>
  /\ Take(pending[1])
  /\ refused' = refused + (IF srv' = srv THEN 1 ELSE 0)
  /\ pending' = <<>>
  /\ UNCHANGED <<kind, stage, reg, creds, wire, said, attacks, hist>>

\* The server answers, the resource owner approves.
Answer ==
  /\ srv.due # <<>>
  /\ LET g == Granted[IF srv.due[1].what = "temp" THEN 1 ELSE 2]
         mine == srv.due[1].cid = Alice.cid
     IN  \/ mine /\ pending = <<>> /\ srv' = Grant(srv, g[1], g[2]) /\ creds' = g
         \/ ~mine /\ srv' = Grant(srv, B("et"), B("ets")) /\ UNCHANGED creds
  /\ UNCHANGED <<kind, stage, reg, pending, wire, said, taken, refused, attacks, hist>>
ApproveIt ==
  /\ \E i \in DOMAIN srv.temps : srv.temps[i].verifier = <<>> /\ srv' = Approve(srv, i, IF srv.temps[i].cid = Alice.cid THEN Verifier ELSE B("ev"))
  /\ UNCHANGED <<kind, stage, reg, creds, pending, wire, said, taken, refused, attacks, hist>>

\* ------------------------------------------------------- attacks ----
Replayed == wire
Mixed ==
  UNION { { [x[1] EXCEPT !.auth = x[2].auth], [x[1] EXCEPT !.body = x[2].body], [x[1] EXCEPT !.uri = x[2].uri],
            [x[1] EXCEPT !.uri = x[2].uri, !.body = x[2].body] } : x \in wire \X wire }
\* Pairs dropped and doubled, moved to another place, a letter changed.
Rewritten ==
  LET text(pairs) == FormText(EncText(pairs))
      header(pairs) == AuthScheme \o Join([i \in 1..Len(pairs) |-> ((pairs[i][1] \o <<Eq, Quote>>) \o Enc(pairs[i][2])) \o <<Quote>>], <<Comma>>)
      without(ps, i) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
      changed(ps, i) == [ps EXCEPT ![i][2] = Append(@, 49)]
      of(m) ==
        LET p == Parts(m)
            put(j, ps) == CASE j = 1 -> [m EXCEPT !.auth = IF ps = <<>> THEN <<>> ELSE <<header(ps)>>]
                            [] j = 2 -> [m EXCEPT !.uri = p.uri \o (<<Question>> \o text(ps))]
                            [] j = 3 -> [m EXCEPT !.body = text(ps)]
            all == p.lists[1] \o (p.lists[2] \o p.lists[3])
            bare == [method |-> m.method, uri |-> p.uri, auth |-> <<>>, body |-> <<>>]
        IN  UNION { {put(j, without(p.lists[j], i)), put(j, changed(p.lists[j], i)), put(j, Append(p.lists[j], p.lists[j][i]))} :
                    <<j, i>> \in {x \in (1..3) \X (1..12) : x[2] \in DOMAIN p.lists[x[1]]} }
            \cup { [bare EXCEPT !.body = text(all)], [bare EXCEPT !.uri = @ \o (<<Question>> \o text(all))],
                   [m EXCEPT !.method = B("PUT")], [m EXCEPT !.uri = Append(@, 47)] }
  IN  UNION {of(m) : m \in wire}
\* What Eve makes herself: her own flow, and with tokens she has overheard.
MadeUp ==
  LET overheard == {<<>>} \cup {<<srv.temps[i].id, s>> : i \in DOMAIN srv.temps, s \in {<<>>, B("ets")}}
                          \cup {<<srv.toks[i].id, s>> : i \in DOMAIN srv.toks, s \in {<<>>, B("ets")}}
                          \cup (IF \E i \in DOMAIN srv.temps : srv.temps[i].id = B("et") THEN {<<B("et"), B("ets")>>} ELSE {})
      cfg(cid, t, i) == [mode |-> "form", buf |-> <<>>, method |-> HttpMethod[i], uri |-> Uri[i], cid |-> cid, csec |-> Eve.csec, token |-> t,
                    callback |-> IF i = 1 THEN <<B("oob")>> ELSE <<>>, verifier |-> IF i = 2 THEN <<IF t # <<>> /\ t[1] = B("et") THEN B("ev") ELSE Verifier>> ELSE <<>>,
                    nonce |-> <<B("x")>>, timestamp |-> <<Now>>, version |-> FALSE, sm |-> Method(kind),
                    debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
  IN  { Message(cfg(cid, t, i), "form", Reqs[1], NoFresh) : cid \in {Alice.cid, Eve.cid}, t \in overheard, i \in 1..3 }

Attack ==
  /\ kind # "plaintext"     \* (which has to go over a secure channel)
  /\ attacks < MaxAttacks
  /\ wire # {}
  /\ \E m \in Replayed \cup (Mixed \cup (Rewritten \cup MadeUp)) :
       /\ m \notin wire \/ pending # <<m>>
       /\ Take(m)
  /\ attacks' = attacks + 1
  /\ UNCHANGED <<kind, stage, reg, creds, pending, wire, said, refused, hist>>

Next == Ask \/ Deliver \/ Answer \/ ApproveIt \/ Attack
Spec == Init /\ [][Next]_vars

Times(x, seq) == Len(SelectSeq(seq, LAMBDA y : y = x))

Inv ==
  \* The flow goes through.
  /\ attacks = 0 => refused = 0 /\ taken = SubSeq(said, 1, Len(said) - Len(pending))
  \* Nothing in the client's name that it has not said, nor more often.
  /\ \A i \in DOMAIN taken : Times(taken[i], taken) <= Times(taken[i], said)
  \* Credentials for those whose request was approved, once.
  /\ \A i \in DOMAIN srv.toks : srv.temps[srv.toks[i].temp].cid = srv.toks[i].cid /\ srv.temps[srv.toks[i].temp].used
  /\ \A i, j \in DOMAIN srv.toks : i # j => srv.toks[i].temp # srv.toks[j].temp
  /\ \A i \in DOMAIN srv.temps : srv.temps[i].used => srv.temps[i].verifier # <<>>
  \* Printed for being carried out.
  /\ stage = 3 /\ pending = <<>> /\ attacks = 0 => PrintT(ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
