--------------------------- MODULE MC_SessionTexts ---------------------------
\* The same texts in every configured place.
EXTENDS MC_Session

Alphabet == { B("a"), B("%"), B("&"), B("="), B("+"), B(" "), B(","), B("\""), B("~"), <<195, 169>>, <<0>>, B("?") }
Texts1 == { <<>> } \cup Alphabet
Texts2 == Texts1 \cup { x \o y : x \in Alphabet, y \in Alphabet }

Texts == IF Thorough THEN Texts2 ELSE Texts1
TheCfgs ==
  UNION { { [Base EXCEPT !.mode = m, !.cid = v], [Base EXCEPT !.mode = m, !.nonce = <<v>>],
            [Base EXCEPT !.mode = m, !.callback = <<v>>], [Base EXCEPT !.mode = m, !.verifier = <<v>>],
            [Base EXCEPT !.mode = m, !.token = <<v, B("x")>>], [Base EXCEPT !.mode = m, !.method = v],
            [Base EXCEPT !.mode = m, !.csec = v], [Base EXCEPT !.mode = m, !.token = <<B("x"), v>>],
            [Base EXCEPT !.mode = m, !.buf = v],
            [Base EXCEPT !.mode = m, !.uri = SelectSeq(v, LAMBDA ch : ch # Question)] } :
          v \in Texts, m \in Auth }
TheReqs == { Vec(<<>>) }
=============================================================================
