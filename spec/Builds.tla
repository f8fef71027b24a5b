-------------------------------- MODULE Builds --------------------------------
(***************************************************************************)
(* The library as built in different ways: with the standard library, with *)
(* an allocator only, or with neither; with or without debug assertions.   *)
(* A build is [std, alloc, debug].                                         *)
(***************************************************************************)
EXTENDS Requests

AllBuilds == {b \in [std : BOOLEAN, alloc : BOOLEAN, debug : BOOLEAN] : b.std => b.alloc}

\* What a build makes of a configuration.
Built(cfg, b) == [cfg EXCEPT !.debug = b.debug, !.order = b.debug /\ b.alloc, !.clock = b.std]

\* Heap memory is only used for what the order of names is checked against.
MayAllocate(b) == b.debug /\ b.alloc

\* What can be seen of a session from outside.
Seen(s) == [phase |-> s.phase, out |-> s.out, calls |-> s.calls]

\* Builds agree about everything but what some of them refuse.
Agree(s, t) == s.phase = "panicked" \/ t.phase = "panicked" \/ Seen(s) = Seen(t)
=============================================================================
