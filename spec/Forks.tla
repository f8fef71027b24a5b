-------------------------------- MODULE Forks --------------------------------
(***************************************************************************)
(* Several serializations in progress at the same time.  Serializers live  *)
(* in registers (<<>> or <<session>>); they are opened, stepped, cloned,   *)
(* dropped and ended in any order.  Nothing is shared between registers:   *)
(* what a serializer gives is the run of its own events, of which a clone  *)
(* inherits those before the cloning.                                      *)
(***************************************************************************)
EXTENDS Observe

ForkAlive(regs, r) == regs[r] # <<>>

ForkEnabled(regs, e) == e.op # "open" => ForkAlive(regs, e.r) /\ regs[e.r][1].phase = "open"

\* Ending and dropping a serializer frees its register.
ForkApply(cfgs, regs, e, fresh) ==
  CASE e.op = "open" -> [regs EXCEPT ![e.r] = <<Open(cfgs[e.cfg], fresh)>>]
    [] e.op = "fork" -> [regs EXCEPT ![e.to] = regs[e.r]]
    [] e.op \in {"drop", "end"} -> [regs EXCEPT ![e.r] = <<>>]
    [] OTHER -> [regs EXCEPT ![e.r] = <<Step(@[1], e)>>]

\* What ending the serializer in register r gives, sig being the signature.
ForkResult(regs, r, sig) == End(regs[r][1], sig)
==============================================================================
