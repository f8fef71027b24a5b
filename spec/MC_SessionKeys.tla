--------------------------- MODULE MC_SessionKeys ---------------------------
\* Every name around the protocol names, alone and (in the thorough tier) in pairs.
EXTENDS MC_Session

Near(n) ==
  { n \o <<ch>> : ch \in {45, 46, 48, 95, 126} }
  \cup { SubSeq(n, 1, Len(n) - 1) \o <<n[Len(n)] + d>> : d \in {-1, 1} }
  \cup { SubSeq(n, 1, i) : i \in (Len(n) - 2)..(Len(n) - 1) }
KeyNames ==
  { k \in UNION { Near(SlotName[i]) : i \in Slots } \cup Near(OauthSignature)
          \cup { <<>>, B("a"), B("oauth_"), B("oauth"), B("oauth-"), B("oauth~"), B("~"), B("-"), B("A") } :
      k # OauthSignature /\ \A j \in Slots : k # SlotName[j] }
TheCfgs ==
  { [Base EXCEPT !.mode = m, !.callback = <<B("oob")>>, !.verifier = <<B("v")>>,
                 !.token = <<B("t"), B("ts")>>, !.version = TRUE, !.sm = Hooked] : m \in Modes }
  \cup { [Base EXCEPT !.mode = m] : m \in Auth }
Single == { Vec(<<P(k, B("1"), FALSE)>>) : k \in KeyNames }
Second == { SubSeq(SlotName[i], 1, Len(SlotName[i]) - 1) \o <<126>> : i \in Slots }
TheReqs ==
  Single \cup
  IF ~Thorough THEN {}
  ELSE { rq \in { Vec(<<P(k, B("1"), FALSE), P(h, B("2"), TRUE)>>) : k \in KeyNames, h \in Second } :
           Le(rq.params[1].k, rq.params[2].k) }
=============================================================================
