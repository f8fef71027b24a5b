-------------------------------- MODULE Pairs --------------------------------
(***************************************************************************)
(* What a request says, as opposed to how it is written; how a request can *)
(* be tampered with; and what tampering does to the signed text.           *)
(*                                                                         *)
(* A request is [cfg, params].                                             *)
(***************************************************************************)
EXTENDS Requests
LOCAL INSTANCE SequencesExt

\* The method, the URI, and the bag of name/value pairs in decoded form.
Meaning(cfg, params, fresh) ==
  <<cfg.method, cfg.uri, SortPairs(ProtoPairs(cfg, fresh.nonce, fresh.ts) \o TextPairs(params))>>

\* What the receiver of an output takes the request to say.
ReceivedMeaning(cfg, out, params) ==
  <<cfg.method, cfg.uri, SortPairs(WithoutSignature(Carried(cfg, out)) \o (IF cfg.mode = "header" THEN TextPairs(params) ELSE <<>>))>>

\* Same signed text only for the same meaning; the same signed text for the
\* same meaning as long as what comes encoded is encoded in the one right way.
AgreeOn(samebase, r, s, fresh) ==
  LET same == Meaning(r.cfg, r.params, fresh) = Meaning(s.cfg, s.params, fresh)
      canonical == \A p \in {r.params[i] : i \in DOMAIN r.params} \cup {s.params[i] : i \in DOMAIN s.params} : Canonical(p)
  IN  /\ samebase => same
      /\ same /\ canonical => samebase

\* ----------------------------------------------------------- tampering ----
\* The texts of a request: some of the configuration's, and the parameters'.
CfgPlaces == {"method", "uri", "cid", "callback", "verifier", "nonce", "token"}
Places(r) ==
  {<<"cfg", x>> : x \in {y \in CfgPlaces : y \in {"method", "uri", "cid"} \/ r.cfg[y] # <<>>}}
  \cup {<<w, i>> : w \in {"key", "value"}, i \in DOMAIN r.params}
TextAt(r, p) ==
  CASE p[1] = "key" -> r.params[p[2]].k
    [] p[1] = "value" -> r.params[p[2]].v
    [] p[2] \in {"method", "uri", "cid"} -> r.cfg[p[2]]
    [] OTHER -> r.cfg[p[2]][1]
PutAt(r, p, t) ==
  CASE p[1] = "key" -> [r EXCEPT !.params[p[2]].k = t]
    [] p[1] = "value" -> [r EXCEPT !.params[p[2]].v = t]
    [] p[2] \in {"method", "uri", "cid"} -> [r EXCEPT !.cfg[p[2]] = t]
    [] OTHER -> [r EXCEPT !.cfg[p[2]][1] = t]

Without(ps, i) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))

\* Characters moved between two texts.
Moves(r) ==
  LET two == {x \in Places(r) \X Places(r) : x[1] # x[2] /\ TextAt(r, x[1]) # <<>>}
  IN  UNION { LET s == TextAt(r, x[1])
                  t == TextAt(r, x[2])
              IN  { PutAt(PutAt(r, x[1], Front(s)), x[2], <<s[Len(s)]>> \o t),
                    PutAt(PutAt(r, x[1], Tail(s)), x[2], Append(t, s[1])),
                    PutAt(PutAt(r, x[1], t), x[2], s) } : x \in two }
\* Separators written out: a parameter made part of another text.
Merges(r) ==
  UNION { { LET q == [r EXCEPT !.params = Without(@, i)]
            IN  PutAt(q, IF p[1] \in {"key", "value"} /\ p[2] > i THEN <<p[1], p[2] - 1>> ELSE p,
                      TextAt(r, p) \o (sep \o PairText(EncPair(r.params[i])))) :
              p \in {x \in Places(r) : x[1] = "cfg" \/ (x[1] = "value" /\ x[2] # i)}, sep \in {<<Amp>>, B("%26")} } : i \in DOMAIN r.params }
\* Encoded where it was plain and the other way round.
Recodes(r) ==
  UNION { { PutAt(r, p, Enc(TextAt(r, p))), PutAt(r, p, Dec(TextAt(r, p))) } : p \in {x \in Places(r) : x[1] # "key"} }
  \cup { [r EXCEPT !.params[i] = [k |-> @.k, v |-> IF @.enc THEN Dec(@.v) ELSE Enc(@.v), enc |-> ~@.enc]] : i \in DOMAIN r.params }
  \cup { [r EXCEPT !.params[i].enc = ~@] : i \in DOMAIN r.params }
\* Pairs dropped, doubled, added.
Changes(r) ==
  { [r EXCEPT !.params = Without(@, i)] : i \in DOMAIN r.params }
  \cup { [r EXCEPT !.params = Append(@, @[i])] : i \in DOMAIN r.params }
  \cup { [r EXCEPT !.params = Append(@, [k |-> <<>>, v |-> <<>>, enc |-> FALSE])],
         [r EXCEPT !.params = Reverse(@)],
         [r EXCEPT !.cfg.version = ~@], [r EXCEPT !.cfg.callback = <<>>], [r EXCEPT !.cfg.verifier = <<>>],
         [r EXCEPT !.cfg.callback = r.cfg.verifier, !.cfg.verifier = r.cfg.callback],
         [r EXCEPT !.cfg.token = IF @ = <<>> THEN <<<<>>, <<>>>> ELSE <<>>] }
\* How it is sent, and who signs it, are not part of the signed text.
Rewrites(r) ==
  { [r EXCEPT !.cfg.mode = m] : m \in {"header", "form", "query"} }
  \cup { [r EXCEPT !.cfg.csec = @ \o B("x")], [r EXCEPT !.cfg.buf = B("a=b&")] }

\* A tampered request has to be one the library can be asked to authorize.
Askable(r) ==
  /\ ~Occurs(r.cfg.uri, Question)
  /\ NoCollision(r.params)
  /\ \A i \in DOMAIN r.params : Canonical(r.params[i])
Tampered(r) == {x \in Moves(r) \cup (Merges(r) \cup (Recodes(r) \cup (Changes(r) \cup Rewrites(r)))) : Askable(x)}

\* Fed in order.
InOrder(ps) == SortSeq(ps, LAMBDA p, q : PairLt(EncPair(p), EncPair(q)))
Authorize(r, fresh) == Run(r.cfg, fresh, FeedOf(InOrder(r.params)))
=============================================================================
