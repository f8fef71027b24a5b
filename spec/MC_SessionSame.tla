--------------------------- MODULE MC_SessionSame ---------------------------
\* Two parameters of the same name: every pair of values in encoded order.
EXTENDS MC_Session

Alphabet == { B("a"), B("%"), B("&"), B("="), B("+"), B(" "), B(","), B("\""), B("~"), <<195, 169>>, <<0>>, B("?") }
Texts1 == { <<>> } \cup Alphabet
Texts2 == Texts1 \cup { x \o y : x \in Alphabet, y \in Alphabet }

TheCfgs == { [Base EXCEPT !.mode = m] : m \in Modes }
Pairs == { Vec(<<P(B("k"), v, FALSE), P(B("k"), u, FALSE)>>) : v \in Texts1, u \in Texts1 }
TheReqs == { rq \in Pairs : Le(Enc(rq.params[1].v), Enc(rq.params[2].v)) }
=============================================================================
