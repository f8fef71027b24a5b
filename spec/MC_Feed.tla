------------------------------ MODULE MC_Feed ------------------------------
(***************************************************************************)
(* Requests of up to MaxLen parameters whose names lie all around those of *)
(* the protocol parameters.  The state machine hands out what is due next: *)
(* the pending parameter, or a protocol slot that comes before it.  Every  *)
(* complete feeding is printed and replayed with the real requests.        *)
(***************************************************************************)
EXTENDS Requests, Json

CONSTANT MaxLen

VARIABLES params, next, slot, fed

vars == <<params, next, slot, fed>>

\* Names just below and above each slot's, between the slots, and at the ends.
Cut(nm) == SubSeq(nm, 1, Len(nm) - 1)
Names ==
  TLCEval(UNION {{Cut(SlotName[i]), SlotName[i] \o B("-"), SlotName[i] \o B("a")} : i \in Slots}
          \cup {B("a"), B("o"), B("oauth"), B("oauth_"), B("oauth_d"), B("oauth_o"), B("oauth_signaturf"), B("oauth_sz"),
                B("oauth_toz"), B("oauth_u"), B("oauth_w"), B("p"), B("OAUTH_TOKEN"), B("~"), B("-")})

Sequences(n) == [1..n -> Names]
Lists ==
  {ks \in UNION {Sequences(n) : n \in 0..MaxLen} : \A i \in 1..(Len(ks) - 1) : Le(ks[i], ks[i+1])}

Value(i) == <<<<120>>, <<121>>, <<122>>>>[i]   \* x, y, z

Init ==
  /\ params \in {[i \in 1..Len(ks) |-> [k |-> ks[i], v |-> Value(i), enc |-> FALSE]] : ks \in Lists}
  /\ next = 1 /\ slot = 1 /\ fed = <<>>

SlotDue ==
  slot <= 8 /\ (IF next > Len(params) THEN TRUE ELSE Lt(SlotName[slot], params[next].k))

FeedSlot ==
  /\ SlotDue
  /\ fed' = Append(fed, SlotEvent(slot)) /\ slot' = slot + 1
  /\ UNCHANGED <<params, next>>

FeedParam ==
  /\ next <= Len(params) /\ ~SlotDue
  /\ fed' = Append(fed, ParamEvent(params[next])) /\ next' = next + 1
  /\ UNCHANGED <<params, slot>>

Complete1 == next > Len(params) /\ slot > 8

Finish ==
  /\ Complete1
  /\ PrintT(ToJson([params |-> params, calls |-> Append([i \in 1..Len(fed) |-> FeedCall(fed[i])], <<"end">>)]))
  /\ UNCHANGED vars

Next == FeedSlot \/ FeedParam \/ Finish

Spec == Init /\ [][Next]_vars

\* In order at all times; complete and agreeing with FeedOf at the end.
Inv ==
  /\ Sorted([i \in 1..Len(fed) |-> EventName(fed[i])], Le)
  /\ Complete1 => fed = FeedOf(params) /\ InvFeed(params)
=============================================================================
