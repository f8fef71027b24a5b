----------------------------- MODULE MC_Builder -----------------------------
(***************************************************************************)
(* All short histories of two builders.  The history itself is kept, and   *)
(* the value in force is defined from it declaratively (Latest): the last  *)
(* one set on that builder or, through clones, on its origin before the    *)
(* cloning.  The store has to agree with it after every step.  Every       *)
(* history is printed with the requests its builders then produce, to be   *)
(* replayed with the real builders.                                        *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

CONSTANTS MaxLen, Fields

VARIABLES regs, hist

vars == <<regs, hist>>
Registers == 1..2
Fresh == [nonce |-> B("fresh"), ts |-> B("1318622958")]
Sm == [kind |-> "plaintext", name |-> B("PLAINTEXT"), sig |-> <<>>, use_nonce |-> TRUE, use_ts |-> TRUE,
       hooks |-> <<>>, n |-> <<>>, e |-> 0]

ValuesOf ==
  [token     |-> {<<>>, <<B("t1"), B("ts1")>>, <<B("t2"), B("ts2")>>},
   callback  |-> {<<>>, <<B("cb")>>, <<<<>>>>},
   verifier  |-> {<<>>, <<B("vf")>>},
   nonce     |-> {<<B("n1")>>, <<B("n2")>>},
   timestamp |-> {<<B("7")>>, <<B("8")>>},
   version   |-> BOOLEAN]

Ops(rs) ==
  UNION {{[op |-> "set", r |-> r, field |-> f, v |-> v] : v \in ValuesOf[f]}
           : <<r, f>> \in {x \in Registers \X Fields : rs[x[1]] # <<>>}}
  \cup {[op |-> "clone", r |-> r, to |-> 3 - r] : r \in {x \in Registers : rs[x] # <<>>}}
  \cup {[op |-> "sign", r |-> r, entry |-> "authorize"] : r \in {x \in Registers : rs[x] # <<>>}}
  \cup {[op |-> "sign", r |-> r, entry |-> "into_authorization"] : r \in {x \in Registers : rs[x] # <<>>}}

\* Pinned from the start, so that what is signed is determined.
Start == [NewBuilder(B("ck"), B("cs")) EXCEPT !.nonce = <<B("n0")>>, !.timestamp = <<B("1")>>]

Init ==
  /\ regs = [r \in Registers |-> IF r = 1 THEN <<Start>> ELSE <<>>]
  /\ hist = <<>>

SignEvent(r) == [op |-> "sign", r |-> r, entry |-> "authorize", method |-> B("GET"), uri |-> B("u"), buf |-> <<>>]
Produced(b) ==
  LET cfg == SignCfg(b, Sm, SignEvent(1))
      s == Feed(Open(cfg, Fresh), [kind |-> "unit", wrap |-> <<>>, params |-> <<>>])
  IN  End(s, SigningKey(cfg)).out

Emit(h, rs) ==
  PrintT(ToJson([ev |-> h, out |-> [r \in Registers |-> IF rs[r] = <<>> THEN <<>> ELSE <<Produced(rs[r][1])>>]]))

Next ==
  /\ Len(hist) < MaxLen
  /\ \E e \in Ops(regs) :
       /\ regs' = ApplyOp(regs, e)
       /\ hist' = Append(hist, e)
       /\ Emit(hist', regs')

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------- declaratively ----
\* The value of field f in register r after the first n operations of h:
\* <<value>> or <<>> when there is no builder.
Initial(f) ==
  CASE f = "version" -> FALSE [] f = "nonce" -> <<B("n0")>> [] f = "timestamp" -> <<B("1")>> [] OTHER -> <<>>
RECURSIVE Latest(_, _, _, _)
Latest(h, n, r, f) ==
  IF n = 0 THEN (IF r = 1 THEN <<Initial(f)>> ELSE <<>>)
  ELSE LET e == h[n]
       IN  CASE e.op = "set" /\ e.r = r /\ e.field = f -> <<e.v>>
             [] e.op = "clone" /\ e.to = r -> Latest(h, n - 1, e.r, f)
             [] e.op = "sign" /\ e.r = r /\ e.entry \in Consuming -> <<>>
             [] OTHER -> Latest(h, n - 1, r, f)

Inv ==
  \A r \in Registers, f \in Fields :
    Latest(hist, Len(hist), r, f) = IF regs[r] = <<>> THEN <<>> ELSE <<regs[r][1][f]>>
=============================================================================
