------------------------------- MODULE MC_Forks -------------------------------
(***************************************************************************)
(* All schedules of up to Steps events over two registers.  Every schedule *)
(* is ended in both registers, printed and replayed.                       *)
(***************************************************************************)
EXTENDS Forks, Json

CONSTANT Steps

VARIABLES regs, ev, own

vars == <<regs, ev, own>>

Method == [kind |-> "record", name |-> B("R"), sig |-> B("s"), use_nonce |-> TRUE, use_ts |-> TRUE,
           hooks |-> <<>>, n |-> <<>>, e |-> 0]
Base == [mode |-> "header", buf |-> <<>>, method |-> B("GET"), uri |-> B("u"), cid |-> B("c"), csec |-> B("x"),
         token |-> <<>>, callback |-> <<>>, verifier |-> <<>>, nonce |-> <<B("n")>>, timestamp |-> <<B("7")>>,
         version |-> FALSE, sm |-> Method, debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
Cfgs == << Base, [Base EXCEPT !.mode = "query", !.token = <<B("t"), <<>>>>, !.csec = B("y")],
           [Base EXCEPT !.mode = "pform", !.buf = B("b=&")] >>
Fresh == [nonce |-> <<>>, ts |-> <<>>]

Ops ==
  {[op |-> "open", r |-> r, cfg |-> c] : r \in 1..2, c \in 1..3}
  \cup {[op |-> "param", r |-> r, k |-> k, v |-> B("&"), enc |-> FALSE] : r \in 1..2, k \in {B("a"), B("p")}}
  \cup {[op |-> "all", r |-> r] : r \in 1..2}
  \cup {[op |-> "fork", r |-> r, to |-> 3 - r] : r \in 1..2}
  \cup {[op |-> "end", r |-> r] : r \in 1..2} \cup {[op |-> "drop", r |-> 2]}

\* Events are noted with what is seen at them.
Seen(e) ==
  IF e.op # "end" THEN [none |-> TRUE]
  ELSE LET t == ForkResult(regs, e.r, B("s")) IN [out |-> t.out, calls |-> t.calls]

\* No misuse (see MC_Order for that).
InOrder(e) ==
  LET t == ForkApply(Cfgs, regs, e, Fresh)
  IN  \A r \in 1..2 : ForkAlive(t, r) => t[r][1].phase = "open"

Init == regs = [r \in 1..2 |-> <<>>] /\ ev = <<>> /\ own = [r \in 1..2 |-> <<>>]

Do(e) ==
  /\ ForkEnabled(regs, e) /\ InOrder(e)
  /\ e.op = "open" => ~ForkAlive(regs, e.r)
  /\ regs' = ForkApply(Cfgs, regs, e, Fresh)
  /\ ev' = Append(ev, e @@ [seen |-> Seen(e)])
  /\ own' = CASE e.op = "open" -> [own EXCEPT ![e.r] = <<e>>]
              [] e.op = "fork" -> [own EXCEPT ![e.to] = own[e.r]]
              [] OTHER -> [own EXCEPT ![e.r] = Append(@, e)]

Alive == {r \in 1..2 : ForkAlive(regs, r)}

Next ==
  \/ Len(ev) < Steps /\ \E e \in Ops : Do(e)
  \/ Len(ev) >= Steps /\ Alive # {} /\ Do([op |-> "end", r |-> CHOOSE r \in Alive : TRUE])
  \/ Len(ev) >= Steps /\ Alive = {} /\ PrintT(ToJson([ev |-> ev])) /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

\* Each serializer is the run of the events of its own.
Independent ==
  \A r \in Alive : regs[r][1] = Run(Cfgs[own[r][1].cfg], Fresh, Tail(own[r]))
Inv == Independent /\ \A r \in Alive : SessionInv(regs[r][1])

\* An event touches its own register only.
Frame ==
  [][ev' # ev =>
       LET e == ev'[Len(ev')]
           touched == IF e.op = "fork" THEN {e.to} ELSE {e.r}
       IN  \A r \in (1..2) \ touched : regs'[r] = regs[r]]_vars
===============================================================================
