------------------------------- MODULE Flow -------------------------------
(***************************************************************************)
(* The authorization flow of RFC 5849 section 2 as a whole: a client that  *)
(* makes all its requests with the library, and a server that knows        *)
(* nothing of them but what is transmitted.                                *)
(*                                                                         *)
(* A message is what goes over the wire: [method, uri, auth, body] with    *)
(* auth <<>> or <<text of the Authorization header>>, and a form as body.  *)
(*                                                                         *)
(* The world w is [clients, initiate, token]: the registered clients as    *)
(* [cid, csec, sm], and the URIs of the first two requests of the flow.    *)
(*                                                                         *)
(* A server state srv has                                                  *)
(*   temps    temporary credentials granted: [id, sec, cid, verifier, used]*)
(*            verifier <<>> until the resource owner approves              *)
(*   toks     token credentials granted: [id, sec, cid, temp]              *)
(*   seen     <<cid, token, timestamp, nonce>> of the requests accepted    *)
(*   due      what has to be granted next: <<>> or <<[what, cid, temp]>>   *)
(***************************************************************************)
EXTENDS Builder
LOCAL INSTANCE SequencesExt

NewServer == [temps |-> <<>>, toks |-> <<>>, seen |-> {}, due |-> <<>>]

\* ------------------------------------------------------- receiving ----
ProtocolNames == {SlotName[i] : i \in Slots} \cup {OauthSignature}
Protocol(pairs) == SelectSeq(pairs, LAMBDA p : p[1] \in ProtocolNames)
Named(pairs, name) == SelectSeq(pairs, LAMBDA p : p[1] = name)

\* What a receiver reads out of a message.
Parts(m) ==
  LET q == IndexOf(m.uri, Question)
  IN  [uri |-> IF q = 0 THEN m.uri ELSE SubSeq(m.uri, 1, q - 1),
       lists |-> << IF m.auth = <<>> THEN <<>> ELSE DecPairs(HeaderPairs(m.auth[1])),
                    IF q = 0 THEN <<>> ELSE ParseForm(Drop(m.uri, q)),
                    ParseForm(m.body) >>]

\* What the message says (3.4.1.3): method, URI, and all the pairs.
Said(m) ==
  LET p == Parts(m)
  IN  <<m.method, p.uri, SortPairs(WithoutSignature(p.lists[1] \o (p.lists[2] \o p.lists[3])))>>

IndexWhere(seq, P(_)) == IF \E i \in DOMAIN seq : P(seq[i]) THEN CHOOSE i \in DOMAIN seq : P(seq[i]) ELSE 0

\* May a client make this request now?  Of what is said only.
\* proto: the protocol parameters; the result is <<>> or what follows.
Allowed(w, srv, uri, proto) ==
  LET val(i) == ValueOf(proto, SlotName[i])
      has(i) == Named(proto, SlotName[i]) # <<>>
      cid == val(2)
      temp == IndexWhere(srv.temps, LAMBDA t : t.id = val(6) /\ t.cid = cid)
      tok == IndexWhere(srv.toks, LAMBDA t : t.id = val(6) /\ t.cid = cid)
  IN  CASE uri = w.initiate -> IF has(1) /\ (~has(6) \/ val(6) = <<>>)
                               THEN <<[what |-> "temp", cid |-> cid, temp |-> 0]>> ELSE <<>>
        [] uri = w.token    -> IF has(6) /\ temp # 0 /\ ~srv.temps[temp].used /\ has(7) /\ srv.temps[temp].verifier = <<val(7)>>
                               THEN <<[what |-> "token", cid |-> cid, temp |-> temp]>> ELSE <<>>
        [] OTHER            -> IF ~has(6) \/ tok # 0 THEN <<[what |-> "resource", cid |-> cid, temp |-> 0]>> ELSE <<>>

\* The secret that goes with a token, as far as the server knows one.
SecretOf(w, srv, uri, cid, id) ==
  LET from == IF uri = w.token THEN srv.temps ELSE srv.toks
      i == IndexWhere(from, LAMBDA t : t.id = id /\ t.cid = cid)
  IN  IF i = 0 THEN <<>> ELSE <<from[i].sec>>

\* The verdict on a message: [ok, now, seen].
Refused == [ok |-> FALSE, now |-> <<>>, seen |-> <<>>]
Verdict(w, srv, m) ==
  LET p == Parts(m)
      all == p.lists[1] \o (p.lists[2] \o p.lists[3])
      proto == Protocol(all)
      val(i) == ValueOf(proto, SlotName[i])
      times(n) == Len(Named(proto, n))
      client == IndexWhere(w.clients, LAMBDA k : k.cid = val(2))
      places == Cardinality({i \in 1..3 : Protocol(p.lists[i]) # <<>>})
      tokened == times(SlotName[6]) = 1 /\ val(6) # <<>>
      secret == IF tokened THEN SecretOf(w, srv, p.uri, val(2), val(6)) ELSE <<<<>>>>
      entry == <<val(2), val(6), val(5), val(3)>>
  IN  IF (places = 1 /\ (\A n \in ProtocolNames : times(n) <= 1)
          /\ (m.auth # <<>> => p.lists[1] # <<>>)
          /\ (\A n \in {OauthSignature, SlotName[2], SlotName[3], SlotName[4], SlotName[5]} : times(n) = 1)
          /\ (times(SlotName[8]) = 1 => val(8) = OnePointZero)
          /\ IsDecimal(val(5)) /\ client # 0 /\ secret # <<>> /\ entry \notin srv.seen) # TRUE
      THEN Refused
      ELSE LET k == w.clients[client]
               cfg == [csec |-> k.csec, token |-> <<val(6), secret[1]>>, sm |-> k.sm]
               now == Allowed(w, srv, p.uri, proto)
           IN  IF k.sm.name = val(4) /\ now # <<>>
                  /\ SignatureOk(cfg, BaseString(m.method, p.uri, EncText(WithoutSignature(all))), ValueOf(proto, OauthSignature))
               THEN [ok |-> TRUE, now |-> now, seen |-> entry] ELSE Refused

\* The server after it.
Accepted(srv, v) ==
  IF ~v.ok THEN srv
  ELSE LET s == [srv EXCEPT !.seen = @ \cup {v.seen}, !.due = IF v.now[1].what = "resource" THEN srv.due ELSE v.now]
       IN  IF v.now[1].what = "token" THEN [s EXCEPT !.temps[v.now[1].temp].used = TRUE] ELSE s

\* Credentials granted for the request accepted last.
Grant(srv, id, sec) ==
  LET d == srv.due[1]
  IN  IF d.what = "temp"
      THEN [srv EXCEPT !.due = <<>>, !.temps = Append(@, [id |-> id, sec |-> sec, cid |-> d.cid, verifier |-> <<>>, used |-> FALSE])]
      ELSE [srv EXCEPT !.due = <<>>, !.toks = Append(@, [id |-> id, sec |-> sec, cid |-> d.cid, temp |-> d.temp])]

\* The resource owner approves.
Approve(srv, i, verifier) == [srv EXCEPT !.temps[i].verifier = <<verifier>>]

\* The credentials in a response.
Response(text) ==
  LET pairs == ParseForm(text)
  IN  <<ValueOf(pairs, B("oauth_token")), ValueOf(pairs, B("oauth_token_secret"))>>

\* --------------------------------------------------------- sending ----
\* How a request and its authorization travel.
Hows == {"hform", "hquery", "form", "query"}
ModeOf(how) == CASE how \in {"hform", "hquery"} -> "header" [] OTHER -> how

\* What a client means to say.
Meant(cfg, req, fresh) ==
  <<cfg.method, cfg.uri, SortPairs(ProtoPairs(cfg, fresh.nonce, fresh.ts) \o TextPairs(ParamsOf(req)))>>

\* The client's message as the library makes it, signed with a method of the
\* specification.
PlainOut(cfg, mode, req) == Feed(Open([cfg EXCEPT !.mode = mode, !.buf = <<>>], [nonce |-> <<>>, ts |-> <<>>]), req).out
Message(cfg, how, req, fresh) ==
  LET c == [cfg EXCEPT !.mode = ModeOf(how), !.buf = <<>>]
      s == Feed(Open(c, fresh), req)
      sig == IF c.sm.kind = "plaintext" THEN SigningKey(c) ELSE HmacSignature(c, FedBase(s))
      out == End(s, sig).out
  IN  [method |-> c.method,
       uri |-> CASE how = "query" -> out [] how = "hquery" -> PlainOut(c, "pquery", req) [] OTHER -> c.uri,
       auth |-> IF ModeOf(how) = "header" THEN <<out>> ELSE <<>>,
       body |-> CASE how = "form" -> out [] how = "hform" -> PlainOut(c, "pform", req) [] OTHER -> <<>>]
=============================================================================
