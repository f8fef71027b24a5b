------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What a request feeds to a serializer, and what the entry points of the  *)
(* library do with a request.                                              *)
(*                                                                         *)
(* A request is described by [kind, wrap, params]: its kind, the wrappers  *)
(* around it (outermost last), and its parameters [k, v, enc] in the order *)
(* given.  Parameter lists sort; the others are fed in the order given.    *)
(***************************************************************************)
EXTENDS Session
LOCAL INSTANCE SequencesExt

\* ------------------------------------------------- contents of requests ----
SortParams(ps) ==
  SortSeq(ps, LAMBDA p, q : PairLt(<<p.k, Enc(p.v)>>, <<q.k, Enc(q.v)>>))

ParamsOf(req) ==
  IF (\E i \in DOMAIN req.wrap : req.wrap[i] = "none")
     \/ req.kind \in {"unit", "empty", "optnone"}
  THEN <<>>
  ELSE IF req.kind \in {"plist", "plistbox", "optlist"} THEN SortParams(req.params)
  ELSE req.params

\* ------------------------------------------------------ order of feeding ----
ParamEvent(p) == [op |-> "param", k |-> p.k, v |-> p.v, enc |-> p.enc]
SlotEvent(i) == [op |-> "proto", slot |-> i]

\* As the library does it: slots not yet fed whose names lie below the next
\* parameter's are fed first.
FeedOf(ps) ==
  LET due(a, k) ==   \* the slots from a on that come before name k
        SelectSeq([i \in Slots |-> i], LAMBDA i : i >= a /\ Lt(SlotName[i], k))
      step(acc, p) ==
        LET d == due(acc.next, p.k)
        IN  [next |-> acc.next + Len(d),
             evs  |-> Append(acc.evs \o [j \in 1..Len(d) |-> SlotEvent(d[j])], ParamEvent(p))]
      all == FoldLeft(step, [next |-> 1, evs |-> <<>>], ps)
  IN  all.evs \o [j \in 1..(9 - all.next) |-> SlotEvent(all.next + j - 1)]

\* What that has to amount to.
EventName(e) == IF e.op = "proto" THEN SlotName[e.slot] ELSE e.k
InvFeed(ps) ==
  LET f == FeedOf(ps)
  IN  Sorted([i \in 1..Len(ps) |-> ps[i].k], Le) /\ NoCollision(ps) =>
        /\ Sorted([i \in 1..Len(f) |-> EventName(f[i])], Le)
        /\ SelectSeq(f, LAMBDA e : e.op = "param") = [i \in 1..Len(ps) |-> ParamEvent(ps[i])]
        /\ \A i \in Slots : Len(SelectSeq(f, LAMBDA e : e.op = "proto" /\ e.slot = i)) = 1

Feed(s, req) == FoldLeft(Step, s, FeedOf(ParamsOf(req)))

\* The calls a request makes to a serializer.
FeedCall(e) ==
  IF e.op = "proto" THEN <<HookOf[e.slot]>>
  ELSE IF e.enc THEN <<"parameter_encoded", e.k, e.v>> ELSE <<"parameter", e.k, e.v>>
FeedCalls(req) ==
  LET f == FeedOf(ParamsOf(req))
  IN  [i \in 1..Len(f) |-> FeedCall(f[i])]

\* -------------------------------------------------------- entry points ----
\* Names of the nine methods with shorthands.
Shorthand == [get |-> "GET", put |-> "PUT", post |-> "POST", delete |-> "DELETE",
              options |-> "OPTIONS", head |-> "HEAD", connect |-> "CONNECT",
              patch |-> "PATCH", trace |-> "TRACE"]

Entry(mode, method, buffered, opts) ==
  [mode |-> mode, method |-> method, buffered |-> buffered, opts |-> opts]
\* method "" : the caller's.  opts FALSE : default options.
EntryTable ==
  [get |-> Entry("header", "GET", FALSE, TRUE), put |-> Entry("header", "PUT", FALSE, TRUE),
   post |-> Entry("header", "POST", FALSE, TRUE), delete |-> Entry("header", "DELETE", FALSE, TRUE),
   options |-> Entry("header", "OPTIONS", FALSE, TRUE), head |-> Entry("header", "HEAD", FALSE, TRUE),
   connect |-> Entry("header", "CONNECT", FALSE, TRUE), patch |-> Entry("header", "PATCH", FALSE, TRUE),
   trace |-> Entry("header", "TRACE", FALSE, TRUE)]
  @@ [put_form |-> Entry("form", "PUT", FALSE, TRUE), post_form |-> Entry("form", "POST", FALSE, TRUE),
      options_form |-> Entry("form", "OPTIONS", FALSE, TRUE), patch_form |-> Entry("form", "PATCH", FALSE, TRUE)]
  @@ [get_query |-> Entry("query", "GET", FALSE, TRUE), put_query |-> Entry("query", "PUT", FALSE, TRUE),
      post_query |-> Entry("query", "POST", FALSE, TRUE), delete_query |-> Entry("query", "DELETE", FALSE, TRUE),
      options_query |-> Entry("query", "OPTIONS", FALSE, TRUE), head_query |-> Entry("query", "HEAD", FALSE, TRUE),
      connect_query |-> Entry("query", "CONNECT", FALSE, TRUE), patch_query |-> Entry("query", "PATCH", FALSE, TRUE),
      trace_query |-> Entry("query", "TRACE", FALSE, TRUE)]
  @@ [authorize |-> Entry("header", "", FALSE, TRUE), to_form |-> Entry("form", "", FALSE, TRUE),
      to_query |-> Entry("query", "", FALSE, TRUE),
      authorize_with_buf |-> Entry("header", "", TRUE, TRUE), to_form_with_buf |-> Entry("form", "", TRUE, TRUE),
      into_authorization |-> Entry("header", "", FALSE, TRUE), into_form |-> Entry("form", "", FALSE, TRUE),
      into_query |-> Entry("query", "", FALSE, TRUE),
      into_authorization_with_buf |-> Entry("header", "", TRUE, TRUE),
      into_form_with_buf |-> Entry("form", "", TRUE, TRUE)]
  @@ ("free.get" :> Entry("header", "GET", FALSE, FALSE)) @@ ("free.put" :> Entry("header", "PUT", FALSE, FALSE))
  @@ ("free.post" :> Entry("header", "POST", FALSE, FALSE)) @@ ("free.delete" :> Entry("header", "DELETE", FALSE, FALSE))
  @@ ("free.options" :> Entry("header", "OPTIONS", FALSE, FALSE)) @@ ("free.head" :> Entry("header", "HEAD", FALSE, FALSE))
  @@ ("free.connect" :> Entry("header", "CONNECT", FALSE, FALSE)) @@ ("free.patch" :> Entry("header", "PATCH", FALSE, FALSE))
  @@ ("free.trace" :> Entry("header", "TRACE", FALSE, FALSE)) @@ ("free.authorize" :> Entry("header", "", FALSE, FALSE))
  @@ ("free.to_form" :> Entry("pform", "", FALSE, FALSE)) @@ ("free.to_query" :> Entry("pquery", "", FALSE, FALSE))
  @@ ("ser.authorization" :> Entry("header", "", FALSE, TRUE))
  @@ ("ser.authorization_with_buf" :> Entry("header", "", TRUE, TRUE))
  @@ ("ser.form" :> Entry("form", "", FALSE, TRUE)) @@ ("ser.form_with_buf" :> Entry("form", "", TRUE, TRUE))
  @@ ("ser.query" :> Entry("query", "", FALSE, TRUE))
  @@ ("urlencoder.form" :> Entry("pform", "", FALSE, TRUE)) @@ ("urlencoder.form_with_buf" :> Entry("pform", "", TRUE, TRUE))
  @@ ("urlencoder.query" :> Entry("pquery", "", FALSE, TRUE))

\* What a call of the entry point with the given configuration amounts to.
EntryCfg(cfg, name) ==
  LET t == EntryTable[name]
      c == [cfg EXCEPT !.mode = t.mode,
                       !.method = IF t.method = "" THEN @ ELSE B(t.method),
                       !.buf = IF t.buffered THEN @ ELSE <<>>]
  IN  IF t.opts THEN c
      ELSE [c EXCEPT !.callback = <<>>, !.verifier = <<>>, !.nonce = <<>>,
                     !.timestamp = <<>>, !.version = FALSE]
=============================================================================
