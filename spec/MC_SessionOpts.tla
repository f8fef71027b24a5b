--------------------------- MODULE MC_SessionOpts ---------------------------
\* Every combination of options, in every mode.
EXTENDS MC_Session

AllCfgs ==
  { [Base EXCEPT !.mode = m, !.buf = b, !.callback = cb, !.verifier = vf, !.token = tk, !.version = vs,
                 !.sm = [sm EXCEPT !.use_nonce = un, !.use_ts = ut]] :
      m \in Auth, b \in IF Thorough THEN {<<>>, B("x")} ELSE {<<>>},
      cb \in IF Thorough THEN {<<>>, <<<<>>>>, <<B("oob")>>} ELSE {<<>>, <<<<>>>>}, vf \in Opt(B("v")),
      tk \in {<<>>, <<B("t"), B("ts")>>}, vs \in BOOLEAN, sm \in {Method, Hooked}, un \in BOOLEAN, ut \in BOOLEAN }
TheCfgs == AllCfgs \cup { [Base EXCEPT !.mode = m, !.buf = b] : m \in {"pform", "pquery"}, b \in {<<>>, B("x")} }
TheReqs ==
  { Vec(<<>>), Vec(<<P(B("a"), B("1"), FALSE)>>), Vec(<<P(B("z"), B("%2B"), TRUE)>>),
    Vec(<<P(B("a"), B("1"), FALSE), P(B("oauth_o"), <<>>, FALSE), P(B("z"), B("&"), FALSE)>>) }
=============================================================================
