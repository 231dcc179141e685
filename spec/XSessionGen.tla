---------------------------- MODULE XSessionGen ----------------------------
(* Client programs over transformations, as behaviours of XSession: run with *)
(* -simulate, it prints the calls; the conformance driver replays them.      *)
EXTENDS XSession, Json
VARIABLES st, n, sigs
vars == <<st, n, sigs>>
Out(o, t, s, p) == PrintT(ToJson(<<o, t, s, p>>))
Rnd(S) == RandomElement(S)
U2 == XU \div 2
Pos(d) == [i \in 1..d |-> Rnd({k * U2 : k \in -8..8})]
Fac == {XU, 2 * XU, U2, 4 * XU, XU \div 4, 0 - XU, 0 - 2 * XU, 0 - U2}
Unit(d, a, s) == [i \in 1..d |-> IF i = a THEN s * XU ELSE 0]
(* the rotations that permute the axes *)
Quarter == {<<XU, 0, 0, XU>>, <<0, XU, 0 - XU, 0>>, <<0 - XU, 0, 0, 0 - XU>>, <<0, 0 - XU, XU, 0>>}
Cubic == {m \in {Unit(3, a, s) \o Unit(3, b, t) \o Unit(3, 6 - a - b, u) : <<a, b>> \in {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>}, s \in {-1, 1}, t \in {-1, 1}, u \in {-1, 1}} :
             XDet(m, 3) = XU * XU * XU}
Rots(d) == IF d = 2 THEN Quarter ELSE Cubic
Fresh(k, d) ==
  CASE k \in {"tr", "po", "ve"} -> Pos(d)
    [] k = "ro" -> Rnd(Rots(d))
    [] k = "sc" -> [i \in 1..d |-> Rnd(Fac)]
    [] k = "sh" -> LET a == TLCEval(Rnd(1..d)) b == TLCEval(Rnd(1..d \ {a})) IN <<Rnd({k2 * U2 : k2 \in -4..4})>> \o Pos(d) \o Unit(d, a, Rnd({-1, 1})) \o Unit(d, b, Rnd({-1, 1}))
    [] k = "re" -> Unit(d, Rnd(1..d), Rnd({-1, 1})) \o Pos(d)
    [] k = "is" -> Rnd(Rots(d)) \o Pos(d)
    [] k = "si" -> Rnd(Rots(d)) \o Pos(d) \o <<Rnd(Fac)>>
    [] k = "tf" -> XAff(d, TLCEval([i \in 1..(d * d) |-> Rnd({k2 * XU : k2 \in -2..2})]), TLCEval(Pos(d)))
Params(o, t, s) ==
  CASE o = "set"   -> Fresh(XK(t), XN(t))
    [] o = "parts" -> IF XK(t) = "si" THEN <<Rnd(Fac)>> ELSE <<>>
    [] o = "tfset" -> <<(XN(t) + 1) * Rnd(0..XN(t)) + Rnd(0..(XN(t) - 1)), Rnd({k * U2 : k \in -4..4})>>
    [] OTHER -> <<>>

Pick(k, d) == Rnd({i \in XIds : XTab[i] = XOb(k, d)})
Init == n = 0 /\ st = <<>> /\ sigs = TLCEval([o \in XOps |-> XSigs(o)])
Fill == n = 0 /\ n' = 1 /\ \E f \in {TLCEval([i \in XIds |-> Fresh(XK(i), XN(i))])} : st' = f /\ Out("init", 0, <<>>, XFlat(f))
Call == n > 0 /\ n' = n + 1 /\
  \E o \in {IF Rnd(1..2) = 1 THEN Rnd(XOps) ELSE Rnd({"comp", "app", "iapp", "inv", "invof", "totf"})} :
  \E d \in {IF o = "turn" THEN 2 ELSE Rnd({2, 3})} :
  \E g \in {Rnd(sigs[o])} :
  \E c \in {TLCEval(<<IF g[1] = "none" THEN 0 ELSE Pick(g[1], d), [i \in DOMAIN g[2] |-> Pick(g[2][i], d)]>>)} :
  \E p \in {TLCEval(Params(o, c[1], c[2]))} :
  \E route \in {Rnd(0..4)} :
    IF o \in XReads THEN st' = st /\ Out(o, 0, c[2], p \o <<route>>)
    ELSE LET y == TLCEval(XEffect(st, o, c[1], c[2], p)) IN
      IF XFits(y) THEN st' = [st EXCEPT ![c[1]] = y] /\ Out(o, c[1], c[2], p \o <<route>>)
      ELSE \E w \in {TLCEval(Fresh(XK(c[1]), XN(c[1])))} :
             st' = [st EXCEPT ![c[1]] = w] /\ Out("set", c[1], <<>>, w \o <<route>>)
Next == (Fill \/ Call) /\ UNCHANGED sigs
Spec == Init /\ [][Next]_vars
=============================================================================
