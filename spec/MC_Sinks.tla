------------------------------ MODULE MC_Sinks ------------------------------
(***************************************************************************)
(* Small sessions into sinks of every size.  Each session that came to an  *)
(* end is printed with the first step at which something was refused, and  *)
(* the first at which it may be given up, and replayed.                    *)
(***************************************************************************)
EXTENDS Sinks, Json
LOCAL INSTANCE SequencesExt

CONSTANT Steps

VARIABLES x, l, ev, status, first, excuse

vars == <<x, l, ev, status, first, excuse>>

Method == [kind |-> "record", name |-> B("R"), sig |-> B("%3D"), use_nonce |-> FALSE, use_ts |-> FALSE,
           hooks |-> <<>>, n |-> <<>>, e |-> 0]
Plain == [Method EXCEPT !.kind = "plaintext", !.name = B("PLAINTEXT"), !.sig = <<>>, !.use_nonce = TRUE, !.use_ts = TRUE]
Base == [mode |-> "header", buf |-> B("b"), method |-> B("GET"), uri |-> B("u"), cid |-> B("c"), csec |-> B("&"),
         token |-> <<>>, callback |-> <<>>, verifier |-> <<>>, nonce |-> <<>>, timestamp |-> <<>>,
         version |-> FALSE, sm |-> Method, debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
Cfgs == << Base, [Base EXCEPT !.mode = "form"], [Base EXCEPT !.mode = "query"],
           [Base EXCEPT !.mode = "pform"], [Base EXCEPT !.mode = "pquery"],
           [Base EXCEPT !.sm = Plain, !.token = <<B("t"), B("/")>>, !.nonce = <<B("n")>>, !.timestamp = <<B("7")>>],
           [Base EXCEPT !.mode = "form", !.sm = Plain, !.nonce = <<B("n")>>, !.timestamp = <<B("7")>>] >>
Fresh == [nonce |-> <<>>, ts |-> <<>>]
NoLimit == [cap |-> <<>>, keycap |-> <<>>, vcap |-> <<>>, failuri |-> FALSE]

Sig(cfg) == IF cfg.sm.kind = "plaintext" THEN SigningKey(cfg) ELSE cfg.sm.sig

Params == {[op |-> "param", k |-> k, v |-> v, enc |-> FALSE, fail |-> f] :
             k \in {B("a"), B("p")}, v \in {<<>>, B("%")}, f \in BOOLEAN}

\* Sizes from what is in the sink already on.
Least(cfg) == Len(IF cfg.mode \in {"query", "pquery"} THEN cfg.uri ELSE cfg.buf)
Limits(cfg) ==
  {[NoLimit EXCEPT !.cap = <<n>>] : n \in Least(cfg)..(IF cfg.sm.kind = "plaintext" THEN 180 ELSE 110)}
  \cup {NoLimit}
  \cup (IF cfg.sm.kind = "plaintext" THEN {[NoLimit EXCEPT !.keycap = <<n>>] : n \in 0..15} ELSE {})

Init ==
  /\ ev = <<>> /\ status = "running"
  /\ \E c \in DOMAIN Cfgs : l \in {m @@ [cfg |-> c] : m \in Limits(Cfgs[c])}
  /\ x = OpenWithin(Cfgs[l.cfg], Fresh, l)
  /\ first = IF x.stuck THEN 0 ELSE -1
  /\ excuse = IF x.may THEN 0 ELSE -1

Do(e) ==
  /\ status = "running" /\ Len(ev) < Steps
  /\ LET y == StepWithin(x, e, l) IN y.s.phase = "open" /\ x' = y
  /\ ev' = Append(ev, e) /\ l' = l
  /\ first' = IF first = -1 /\ x'.stuck THEN Len(ev') ELSE first
  /\ excuse' = IF excuse = -1 /\ x'.may THEN Len(ev') ELSE excuse
  /\ status' \in {"running"} \cup (IF x'.may THEN {"panicked"} ELSE {})

Finish ==
  /\ status = "running"
  /\ LET y == EndWithin(x, Sig(Cfgs[l.cfg]), l)
     IN  /\ x' = y
         /\ status' = IF y.stuck THEN "panicked" ELSE "returned"
         /\ first' = IF first = -1 /\ y.stuck THEN Len(ev) + 1 ELSE first
         /\ excuse' = IF excuse = -1 /\ y.may THEN Len(ev) + 1 ELSE excuse
  /\ ev' = Append(ev, [op |-> "end"]) /\ l' = l

Over ==
  /\ status # "running"
  /\ (status = "returned" \/ ev = <<>> \/ ev[Len(ev)].op = "end") =>
       PrintT(ToJson([limits |-> l, ev |-> ev, first |-> first, may |-> excuse, out |-> IF status = "returned" THEN x.s.out ELSE <<>>]))
  /\ UNCHANGED vars

Next == (\E e \in Params \cup {[op |-> "all"]} : Do(e)) \/ Finish \/ Over

Spec == Init /\ [][Next]_vars

\* A result is the whole text, and the sink took all of it.
Whole ==
  status = "returned" =>
    /\ x.s.out = EndWithin(FoldSeq(LAMBDA e, y : IF e.op = "end" THEN y ELSE StepWithin(y, e, NoLimit),
                                   OpenWithin(Cfgs[l.cfg], Fresh, NoLimit), ev),
                           Sig(Cfgs[l.cfg]), NoLimit).s.out
    /\ Fits(l.cap, x.s.out)
    /\ first = -1
Blamed == (status = "panicked" => excuse # -1) /\ (first # -1 => excuse # -1)
\* What no longer fits stays so.
Stays == [][x.stuck => x'.stuck]_vars
Inv == Whole /\ Blamed /\ SessionInv(x.s)
==============================================================================
