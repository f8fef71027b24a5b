----------------------------- MODULE MC_Recorder -----------------------------
(***************************************************************************)
(* All histories of up to Steps events of two recorders over a small set   *)
(* of calls.  Every complete history is printed and replayed.              *)
(***************************************************************************)
EXTENDS Recorder, Json

CONSTANT Steps

VARIABLES regs, ev, log

vars == <<regs, ev, log>>

Calls == {<<"parameter", B("a"), B("1")>>, <<"parameter", B("a"), <<>>>>, <<"parameter_encoded", B("a"), B("1")>>,
          <<"parameter", <<>>, B("%")>>, <<"nonce">>, <<"token">>}

Ops ==
  {[op |-> "call", r |-> r, call |-> c] : r \in 1..2, c \in Calls}
  \cup {[op |-> "all", r |-> 1], [op |-> "clone", r |-> 1, to |-> 2], [op |-> "same", r |-> 1, to |-> 2],
        [op |-> "end", r |-> 2], [op |-> "new", r |-> 2]}

Init == regs = [r \in 1..2 |-> <<<<>>>>] /\ ev = <<>> /\ log = <<<<>>, <<>>>>

\* log: the calls made to the recorder in each register since it was new, told by the events alone.
Do(e) ==
  /\ RecEnabled(regs, e)
  /\ regs' = RecApply(regs, e)
  /\ ev' = Append(ev, e @@ [seen |-> RecSeen(regs, e)])
  /\ log' = CASE e.op = "call" -> [log EXCEPT ![e.r] = Append(@, e.call)]
              [] e.op = "all" -> [log EXCEPT ![e.r] = @ \o ProtocolCalls]
              [] e.op = "clone" -> [log EXCEPT ![e.to] = log[e.r]]
              [] e.op \in {"new", "end"} -> [log EXCEPT ![e.r] = <<>>]
              [] OTHER -> log

Next ==
  \/ Len(ev) < Steps /\ \E e \in Ops : Do(e)
  \/ Len(ev) = Steps /\ PrintT(ToJson([ev |-> ev])) /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

Inv == \A r \in 1..2 : RecAlive(regs, r) => regs[r][1] = log[r]

\* Nothing recorded is ever changed or forgotten.
Grows ==
  [][\A r \in 1..2 : LET e == ev'[Len(ev')] IN
       (ev' # ev /\ RecAlive(regs, r) /\ RecAlive(regs', r) /\ e.op \notin {"clone", "new"}) =>
         IsPrefixOf(regs[r][1], regs'[r][1])]_vars
=============================================================================
