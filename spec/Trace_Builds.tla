----------------------------- MODULE Trace_Builds -----------------------------
(***************************************************************************)
(* Validation of the same use in several builds: a run is [cfg, ev, entry, *)
(* clock, seen]; seen lists what builds did, each [build, panic, out,      *)
(* calls, heap]: whether it panicked, the output, the calls made to a      *)
(* recording signature method, and <<>> or the number of allocations.      *)
(***************************************************************************)
EXTENDS Builds, Observe, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos

Init == caseNo \in DOMAIN Runs /\ pos = 1

RECURSIVE Through(_, _)
Through(s, evs) ==
  IF evs = <<>> THEN s
  ELSE Through(IF Head(evs).op = "request" THEN Feed(s, Head(evs).req) ELSE Step(s, Head(evs)), Tail(evs))

Ended(r, x) ==
  LET cfg == Built(IF r.entry = "" THEN r.cfg ELSE EntryCfg(r.cfg, r.entry), x.build)
  IN  Through(Open(cfg, IF x.panic THEN [nonce |-> <<>>, ts |-> <<>>] ELSE Transmitted(cfg, x.out)), r.ev)

\* Everything is pinned, so that the signature is the first build's.
Pinned(cfg) == (cfg.nonce # <<>> \/ ~cfg.sm.use_nonce) /\ (cfg.timestamp # <<>> \/ ~cfg.sm.use_ts)
OutputOf(r, x) == \* the output to read the signature in
  LET done == SelectSeq(r.seen, LAMBDA y : ~y.panic)
      cfg == IF r.entry = "" THEN r.cfg ELSE EntryCfg(r.cfg, r.entry)
  IN  IF Pinned(cfg) THEN done[1].out ELSE x.out

SeenOk(r, x) ==
  LET s == Ended(r, x)
      sig == IF ~Authorized(s.cfg) THEN <<<<>>>>
             ELSE IF s.cfg.sm.kind = "record" THEN <<s.cfg.sm.sig>> ELSE SignatureOf(s.cfg, OutputOf(r, x))
      t == End(s, sig[1])
  IN  /\ x.panic = (s.phase = "panicked")
      /\ ~x.panic =>
           /\ sig # <<>>
           /\ x.out = t.out
           /\ x.heap = <<>> /\ s.cfg.sm.kind = "record" => x.calls = t.calls
           /\ x.heap # <<>> /\ ~MayAllocate(x.build) => x.heap[1] = 0
           /\ Authorized(s.cfg) /\ s.slots[3] > 0 /\ s.cfg.sm.use_nonce /\ s.cfg.nonce = <<>> => FreshNonce(Transmitted(s.cfg, x.out).nonce)
           /\ Authorized(s.cfg) /\ s.slots[5] > 0 /\ s.cfg.sm.use_ts /\ s.cfg.timestamp = <<>> => TimeOk(r.clock, Transmitted(s.cfg, x.out).ts)

Next ==
  LET r == Runs[caseNo]
  IN  \/ /\ pos <= Len(r.seen) /\ SeenOk(r, r.seen[pos]) = TRUE
         /\ pos' = pos + 1 /\ UNCHANGED caseNo
      \/ pos > Len(r.seen) /\ UNCHANGED <<caseNo, pos>>

Spec == Init /\ [][Next]_<<caseNo, pos>>
Alias == [case |-> caseNo, at |-> pos, build |-> IF pos \in DOMAIN Runs[caseNo].seen THEN Runs[caseNo].seen[pos].build ELSE <<>>]
=============================================================================
