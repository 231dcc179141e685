---------------------------- MODULE MC_XSession ----------------------------
(* Every store over small sets of transformations of the plane, and every    *)
(* call on it: composing then applying is applying twice, inverses undo,     *)
(* conversions forget nothing, calls touch nothing but their target.         *)
EXTENDS XSession
VARIABLES st, n
CONSTANTS Depth, Vals, Facs
vars == <<st, n>>
XTabA == << XOb("tr",2), XOb("ro",2), XOb("is",2), XOb("po",2) >>
XTabB == << XOb("is",2), XOb("is",2), XOb("ve",2) >>
XTabC == << XOb("is",2), XOb("si",2), XOb("po",2) >>
XTabD == << XOb("sc",2), XOb("sc",2), XOb("re",2), XOb("po",2) >>
XTabE == << XOb("sh",2), XOb("sh",2), XOb("tf",2), XOb("po",2) >>
XTabF == << XOb("ro",3), XOb("tr",3), XOb("is",3) >>
XTabG == << XOb("si",2), XOb("si",2), XOb("po",2) >>
One == {XU}
Bits == {0, XU}
Trits == {0 - XU, 0, XU}
Two1 == {2 * XU}
Pair == {2 * XU, 0 - (XU \div 2)}
Facs2 == {2 * XU, XU \div 2, 0 - XU}
Seqs(k) == [1..k -> Vals]
Unit(d, a, s) == [i \in 1..d |-> IF i = a THEN s * XU ELSE 0]
Quarter == {<<XU, 0, 0, XU>>, <<0, XU, 0 - XU, 0>>, <<0 - XU, 0, 0, 0 - XU>>, <<0, 0 - XU, XU, 0>>}
Cubic == {m \in {Unit(3, a, s) \o Unit(3, b, t) \o Unit(3, 6 - a - b, u) : <<a, b>> \in {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>}, s \in {-1, 1}, t \in {-1, 1}, u \in {-1, 1}} :
             XDet(m, 3) = XU * XU * XU}
Rots(d) == IF d = 2 THEN Quarter ELSE Cubic
Axes(d) == {Unit(d, a, s) : a \in 1..d, s \in {-1, 1}}
All(k, d) ==
  CASE k \in {"tr", "po", "ve"} -> Seqs(d)
    [] k = "ro" -> Rots(d)
    [] k = "sc" -> [1..d -> Facs]
    [] k = "sh" -> {<<f>> \o o \o c[1] \o c[2] : f \in Vals \cup Facs, o \in Seqs(d), c \in {c \in Axes(d) \X Axes(d) : XSum(d, LAMBDA i : c[1][i], LAMBDA i : c[2][i]) = 0}}
    [] k = "re" -> {v \o o : v \in Axes(d), o \in Seqs(d)}
    [] k = "is" -> {r \o t : r \in Rots(d), t \in Seqs(d)}
    [] k = "si" -> {r \o t \o <<f>> : r \in Rots(d), t \in Seqs(d), f \in Facs}
    [] k = "tf" -> {XHom("tr", d, [i \in 1..d |-> 0])}
RECURSIVE Build(_)
Build(i) == IF i = 0 THEN {<<>>} ELSE {Append(x, y) : x \in Build(i - 1), y \in All(XK(i), XN(i))}
MayWrite == {"copy", "inv", "invof", "comp", "app", "iapp", "totf", "up", "gettr", "getro", "betw", "move", "diff", "neg", "vtr", "trv"}
Cands == TLCEval([o \in MayWrite |-> XCands(o)])
Init == n = 0 /\ st \in Build(Len(XTab))
Next == n < Depth /\ n' = n + 1 /\ \E o \in MayWrite : \E c \in Cands[o] :
          /\ XFits(XEffect(st, o, c[1], c[2], <<>>))
          /\ st' = XAfter(st, o, c[1], c[2], <<>>)
Spec == Init /\ [][Next]_vars

Maps == {i \in XIds : XK(i) \in XMaps}
Pts == {i \in XIds : XK(i) \in {"po", "ve"}}
H(i) == XHom(XK(i), XN(i), st[i])
Exact(i) == XFits(XInvOf(XK(i), XN(i), st[i]))
Dims == \A i \in XIds : Len(st[i]) = XSize(XK(i), XN(i))
(* rotations stay proper rotations through every program *)
Proper == \A i \in XIds : XK(i) \in {"ro", "is", "si"} =>
            LET r == XP(st[i], 1, XN(i) * XN(i)) IN XMM(r, XT(r, XN(i)), XN(i)) = XId(XN(i)) /\ (XN(i) = 2 => XDet(r, 2) = XU * XU)
(* the homogeneous matrix is a homomorphism *)
Homomorphism == \A i, j \in Maps : LET k == XCompKind(XK(i), XK(j)) IN
   (k # "none" /\ XN(i) = XN(j)) =>
      LET c == XComp(XK(i), XK(j), XN(i), st[i], st[j]) m == XMM(H(i), H(j), XN(i) + 1)
      IN (XFits(c) /\ XFits(m)) => XHom(k, XN(i), c) = m
(* composing then applying is applying twice, to points and to vectors *)
Twice == \A i, j \in Maps : \A x \in Pts : LET k == XCompKind(XK(i), XK(j)) IN
   (k # "none" /\ XN(i) = XN(j) /\ XN(x) = XN(i)) =>
      LET c == XComp(XK(i), XK(j), XN(i), st[i], st[j])
          y == XAct(XK(j), XN(i), st[j], XK(x), st[x])
      IN (XFits(c) /\ XFits(y)) => XAct(k, XN(i), c, XK(x), st[x]) = XAct(XK(i), XN(i), st[i], XK(x), y)
(* the inverse undoes, from both sides, and is an involution *)
Undo == \A i \in Maps : Exact(i) =>
   LET v == XInvOf(XK(i), XN(i), st[i]) IN
   /\ XMM(XHom(XK(i), XN(i), v), H(i), XN(i) + 1) = XId(XN(i) + 1)
   /\ XMM(H(i), XHom(XK(i), XN(i), v), XN(i) + 1) = XId(XN(i) + 1)
   /\ XFits(XInvOf(XK(i), XN(i), v)) => XInvOf(XK(i), XN(i), v) = st[i]
   /\ \A x \in Pts : XN(x) = XN(i) => XAct(XK(i), XN(i), v, XK(x), XAct(XK(i), XN(i), st[i], XK(x), st[x])) = st[x]
(* inverse of a composition *)
Reversed == \A i, j \in Maps : LET k == XCompKind(XK(i), XK(j)) IN
   (k # "none" /\ k = XCompKind(XK(j), XK(i)) /\ XN(i) = XN(j) /\ Exact(i) /\ Exact(j)) =>
      LET c == XComp(XK(i), XK(j), XN(i), st[i], st[j])
          d == XComp(XK(j), XK(i), XN(i), XInvOf(XK(j), XN(i), st[j]), XInvOf(XK(i), XN(i), st[i]))
      IN (XFits(c) /\ XFits(d) /\ XFits(XInvOf(k, XN(i), c))) => XHom(k, XN(i), XInvOf(k, XN(i), c)) = XHom(k, XN(i), d)
(* a general transform means what it was made from *)
Forgets == \A i \in Maps : \A x \in Pts : (XN(x) = XN(i) /\ XFits(H(i))) =>
   XAct("tf", XN(i), H(i), XK(x), st[x]) = XAct(XK(i), XN(i), st[i], XK(x), st[x])
(* embedding keeps the meaning; the parts can be read back *)
Embeds == \A t \in {"is", "si"} : \A i \in Maps : XSig("up", t, <<XK(i)>>) =>
   LET p == XRo(XK(i), XN(i), st[i]) \o XOff(XK(i), XN(i), st[i]) \o (IF t = "si" THEN <<XU>> ELSE <<>>)
   IN XHom(t, XN(i), p) = H(i) /\ XRo(t, XN(i), p) = XRo(XK(i), XN(i), st[i]) /\ XOff(t, XN(i), p) = XOff(XK(i), XN(i), st[i])
(* a step changes at most one object *)
Frame == [][Cardinality({i \in XIds : st[i] # st'[i]}) <= 1]_vars
=============================================================================
