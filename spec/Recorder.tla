------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* Recording serializers (a register each: <<>> or <<history>>) and the    *)
(* equality of records.  A call is <<name>>, or <<name, key, text>>.       *)
(***************************************************************************)
EXTENDS Requests

\* The eight protocol parameters, as calls.
ProtocolCalls == [i \in 1..8 |-> <<HookOf[i]>>]

CallNames == {"parameter", "parameter_encoded"} \cup {HookOf[i] : i \in 1..8}
IsCall(c) ==
  /\ c[1] \in CallNames
  /\ Len(c) = (IF c[1] \in {"parameter", "parameter_encoded"} THEN 3 ELSE 1)

RecAlive(regs, r) == regs[r] # <<>>

RecEnabled(regs, e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "same" -> RecAlive(regs, e.r) /\ RecAlive(regs, e.to)
    [] OTHER -> RecAlive(regs, e.r)

RecApply(regs, e) ==
  CASE e.op = "new" -> [regs EXCEPT ![e.r] = <<<<>>>>]
    [] e.op = "call" -> [regs EXCEPT ![e.r] = <<Append(@[1], e.call)>>]
    [] e.op = "all" -> [regs EXCEPT ![e.r] = <<@[1] \o ProtocolCalls>>]
    [] e.op = "clone" -> [regs EXCEPT ![e.to] = regs[e.r]]
    [] e.op = "end" -> [regs EXCEPT ![e.r] = <<>>]
    [] e.op = "same" -> regs

\* What is seen at an event: histories afterwards, or at "end" the result, or at "same" a truth value.
RecSeen(regs, e) ==
  LET after == RecApply(regs, e)
  IN  CASE e.op = "end" -> [out |-> regs[e.r][1]]
        [] e.op = "same" -> [same |-> regs[e.r] = regs[e.to]]
        [] e.op = "clone" -> [hist |-> after[e.r][1], other |-> after[e.to][1]]
        [] OTHER -> [hist |-> after[e.r][1]]
=============================================================================
