--------------------------- MODULE MC_SessionVals ---------------------------
\* Every short text over the characters that matter to the syntax, as a value.
EXTENDS MC_Session

Alphabet == { B("a"), B("%"), B("&"), B("="), B("+"), B(" "), B(","), B("\""), B("~"), <<195, 169>>, <<0>>, B("?") }
Texts1 == { <<>> } \cup Alphabet
Texts2 == Texts1 \cup { x \o y : x \in Alphabet, y \in Alphabet }

TheCfgs == { [Base EXCEPT !.mode = m] : m \in Modes }
Texts == IF Thorough THEN Texts2 ELSE Texts1 \cup { B("%2"), B("%26"), B("=&"), B("%%"), B("a&") }
TheReqs == { Vec(<<P(B("p"), v, FALSE)>>) : v \in Texts } \cup { Vec(<<P(B("p"), Enc(v), TRUE)>>) : v \in Texts }
=============================================================================
