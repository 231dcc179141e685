------------------------------ MODULE XSession -----------------------------
(* A client program over transformations: a store of translations,           *)
(* rotations, scales, shears, reflections, isometries, similarities, general *)
(* transforms, points and vectors, and the calls that compose, invert,       *)
(* apply and convert them.  Numbers are exact: integers counting units of    *)
(* 1/XU.  Matrices column by column.                                         *)
EXTENDS Frm, FiniteSets
CONSTANTS XTab, XU    \* XTab: sequence of [k |-> kind, n |-> dimension]

XOb(k, n) == [k |-> k, n |-> n]
XSpace(n) == << XOb("tr",n), XOb("tr",n), XOb("ro",n), XOb("ro",n), XOb("sc",n), XOb("sc",n), XOb("sh",n), XOb("sh",n), XOb("re",n),
                XOb("is",n), XOb("is",n), XOb("si",n), XOb("si",n), XOb("tf",n), XOb("tf",n), XOb("po",n), XOb("po",n), XOb("ve",n), XOb("ve",n) >>
XFullTable == XSpace(2) \o XSpace(3)
XIds == DOMAIN XTab
XK(i) == XTab[i].k
XN(i) == XTab[i].n
XSize(k, n) ==
  CASE k \in {"tr", "sc", "po", "ve"} -> n
    [] k = "ro" -> n * n
    [] k = "sh" -> 1 + 3 * n            \* factor, origin, direction, normal
    [] k = "re" -> 2 * n                \* normal, a point of the mirror
    [] k = "is" -> n * n + n            \* rotation, translation
    [] k = "si" -> n * n + n + 1        \* rotation, translation, scale
    [] k = "tf" -> (n + 1) * (n + 1)
XMaps == {"tr", "ro", "sc", "sh", "re", "is", "si", "tf"}

(* exact arithmetic in units; XBad is outside every bound *)
XMax == 64 * XU
XBad == 10 * XMax
XIn(x) == x <= XMax /\ 0 - XMax <= x
XRed(raw) == IF raw % XU = 0 THEN raw \div XU ELSE XBad
XMul(a, b) == IF XIn(a) /\ XIn(b) THEN XRed(a * b) ELSE XBad
XDiv(a, b) == IF b = 0 \/ ~XIn(a) THEN XBad ELSE LET m == Abs(b) s == IF b < 0 THEN 0 - a ELSE a IN IF (s * XU) % m = 0 THEN (s * XU) \div m ELSE XBad
XSum(n, f(_), g(_)) == IF \A i \in 1..n : XIn(f(i)) /\ XIn(g(i)) THEN XRed(RSum(n, LAMBDA i : f(i) * g(i))) ELSE XBad
XFits(x) == \A i \in DOMAIN x : XIn(x[i])
XAll(n, f(_)) == [i \in 1..n |-> f(i)]
XPlus(x, y) == [i \in DOMAIN x |-> x[i] + y[i]]
XMinus(x, y) == [i \in DOMAIN x |-> x[i] - y[i]]
XNeg(x) == [i \in DOMAIN x |-> 0 - x[i]]
XScl(x, k) == [i \in DOMAIN x |-> XMul(x[i], k)]
XMk(R, C, f(_, _)) == [e \in 1..(R * C) |-> f(((e - 1) % R) + 1, ((e - 1) \div R) + 1)]
XId(n) == XMk(n, n, LAMBDA i, j : IF i = j THEN XU ELSE 0)
XMV(m, n, x) == XAll(n, LAMBDA i : XSum(n, LAMBDA k : EAt(m, n, i, k), LAMBDA k : x[k]))
XMM(a, b, n) == XMk(n, n, LAMBDA i, j : XSum(n, LAMBDA k : EAt(a, n, i, k), LAMBDA k : EAt(b, n, k, j)))
XT(m, n) == XMk(n, n, LAMBDA i, j : EAt(m, n, j, i))
XP(p, i, n) == SubSeq(p, i, i + n - 1)

(* linear part and displacement *)
XLin(k, n, p) ==
  CASE k = "tr" -> XId(n)
    [] k \in {"ro", "is"} -> XP(p, 1, n * n)
    [] k = "sc" -> XMk(n, n, LAMBDA i, j : IF i = j THEN p[i] ELSE 0)
    [] k = "si" -> XScl(XP(p, 1, n * n), p[n * n + n + 1])
    [] k = "tf" -> XMk(n, n, LAMBDA i, j : EAt(p, n + 1, i, j))
    (* x |-> x + f ((x - o) . v) d *)
    [] k = "sh" -> LET d == XP(p, 2 + n, n) v == XP(p, 2 + 2 * n, n) IN
                   XMk(n, n, LAMBDA i, j : (IF i = j THEN XU ELSE 0) + XMul(p[1], XMul(d[i], v[j])))
    [] k = "re" -> LET v == XP(p, 1, n) IN XMk(n, n, LAMBDA i, j : (IF i = j THEN XU ELSE 0) - 2 * XMul(v[i], v[j]))
XOff(k, n, p) ==
  CASE k = "tr" -> p
    [] k \in {"ro", "sc"} -> [i \in 1..n |-> 0]
    [] k \in {"is", "si"} -> XP(p, n * n + 1, n)
    [] k = "tf" -> XAll(n, LAMBDA i : EAt(p, n + 1, i, n + 1))
    [] k = "sh" -> LET o == XP(p, 2, n) d == XP(p, 2 + n, n) v == XP(p, 2 + 2 * n, n) IN
                   XNeg(XScl(d, XMul(p[1], XSum(n, LAMBDA i : o[i], LAMBDA i : v[i]))))
    [] k = "re" -> LET v == XP(p, 1, n) o == XP(p, n + 1, n) IN
                   XScl(v, 2 * XSum(n, LAMBDA i : o[i], LAMBDA i : v[i]))
XAff(n, l, t) == XMk(n + 1, n + 1, LAMBDA i, j :
    IF i <= n /\ j <= n THEN EAt(l, n, i, j) ELSE IF i <= n THEN t[i] ELSE IF j <= n THEN 0 ELSE XU)
XHom(k, n, p) == XAff(n, XLin(k, n, p), XOff(k, n, p))

(* inverse of a linear map, where the arithmetic stays exact *)
XCof(m, n, i, j) == IF n = 2 THEN EAt(m, 2, 3 - i, 3 - j) * (IF i = j THEN 1 ELSE -1)
  ELSE LET a == (i % 3) + 1 b == ((i + 1) % 3) + 1 c == (j % 3) + 1 d == ((j + 1) % 3) + 1
       IN EAt(m, 3, a, c) * EAt(m, 3, b, d) - EAt(m, 3, a, d) * EAt(m, 3, b, c)
XSmall(m) == \A i \in DOMAIN m : Abs(m[i]) <= 8 * XU
XDet(m, n) == RSum(n, LAMBDA j : EAt(m, n, 1, j) * XCof(m, n, 1, j))          \* in units^n
(* cofactor over determinant: units^(n-1) over units^n *)
XInv(m, n) == IF ~XSmall(m) THEN [i \in DOMAIN m |-> XBad] ELSE
  LET d == XDet(m, n) IN
  XMk(n, n, LAMBDA i, j : IF d = 0 THEN XBad
     ELSE LET c == XCof(m, n, j, i) * XU * XU * (IF d < 0 THEN -1 ELSE 1) IN IF c % Abs(d) = 0 THEN c \div Abs(d) ELSE XBad)
(* a matrix the library may invert: affine and regular *)
XRegular(p, n) == /\ \A j \in 1..(n + 1) : EAt(p, n + 1, n + 1, j) = IF j <= n THEN 0 ELSE XU
                  /\ XFits(XInv(XLin("tf", n, p), n))
(* components of the inverse map, of the same kind *)
XInvOf(k, n, p) ==
  CASE k = "tr" -> XNeg(p)
    [] k = "ro" -> XT(p, n)
    [] k = "sc" -> XAll(n, LAMBDA i : XDiv(XU, p[i]))
    [] k = "sh" -> [p EXCEPT ![1] = 0 - p[1]]
    [] k = "re" -> p
    [] k = "is" -> LET r == XT(XP(p, 1, n * n), n) IN r \o XNeg(XMV(r, n, XP(p, n * n + 1, n)))
    [] k = "si" -> LET r == XT(XP(p, 1, n * n), n) s == XDiv(XU, p[n * n + n + 1]) IN
                   r \o XNeg(XAll(n, LAMBDA i : XMul(XMV(r, n, XP(p, n * n + 1, n))[i], s))) \o <<s>>
    [] k = "tf" -> IF ~XRegular(p, n) THEN [i \in DOMAIN p |-> XBad]
                   ELSE LET l == XInv(XLin(k, n, p), n) IN XAff(n, l, XNeg(XMV(l, n, XOff(k, n, p))))
(* composition: kind of the result, and its components *)
XCompKind(k1, k2) ==
  CASE k1 = k2 /\ k1 \in {"tr", "ro", "sc", "is", "si", "tf"} -> k1
    [] k1 = "sh" /\ k2 = "sh" -> "tf"
    [] k1 # k2 /\ k1 \in {"tr", "ro", "is"} /\ k2 \in {"tr", "ro", "is"} -> "is"
    [] k1 = "si" /\ k2 = "is" -> "si"
    [] OTHER -> "none"
(* rotation, displacement and factor of the rigid and similar kinds *)
XRo(k, n, p) == IF k = "tr" THEN XId(n) ELSE XP(p, 1, n * n)
XFa(k, n, p) == IF k = "si" THEN p[n * n + n + 1] ELSE XU
XComp(k1, k2, n, p, q) ==
  LET k == XCompKind(k1, k2) IN
  CASE k = "tr" -> XPlus(p, q)
    [] k = "ro" -> XMM(p, q, n)
    [] k = "sc" -> XAll(n, LAMBDA i : XMul(p[i], q[i]))
    [] k \in {"is", "si"} ->
         LET r == XRo(k1, n, p)
             d == XAll(n, LAMBDA i : XMul(XMV(r, n, XOff(k2, n, q))[i], XFa(k1, n, p)) + XOff(k1, n, p)[i])
         IN XMM(r, XRo(k2, n, q), n) \o d \o (IF k = "si" THEN <<XMul(XFa(k1, n, p), XFa(k2, n, q))>> ELSE <<>>)
    [] k = "tf" -> XMM(XHom(k1, n, p), XHom(k2, n, q), n + 1)
(* image of a point or vector *)
XAct(k, n, p, kx, x) == LET y == XMV(XLin(k, n, p), n, x) IN IF kx = "po" THEN XPlus(y, XOff(k, n, p)) ELSE y

XOps == {"set", "copy", "comp", "inv", "invof", "app", "iapp", "totf", "up", "parts", "gettr", "getro", "tfset", "betw", "move", "diff", "neg", "vtr", "trv", "eq", "turn", "fac"}
XReads == {"eq", "turn", "fac"}
(* which kinds a call relates: target (or "none") and sources *)
XSig(o, k, s) ==
  CASE o = "set"   -> k # "none"
    [] o = "copy"  -> k = s[1]
    [] o = "inv"   -> k \in XMaps
    [] o = "invof" -> k \in XMaps /\ s[1] = k
    [] o = "comp"  -> k # "none" /\ k = XCompKind(s[1], s[2])
    (* shears act on vectors as recorded in KNOWN_FINDINGS: points only here *)
    [] o \in {"app", "iapp"} -> s[1] \in XMaps /\ s[2] \in {"po", "ve"} /\ k = s[2] /\ (s[1] = "sh" => k = "po")
    [] o = "totf"  -> k = "tf" /\ s[1] \in XMaps
    (* embedding a special kind into a more general one *)
    [] o = "up"    -> <<s[1], k>> \in {<<"tr", "is">>, <<"ro", "is">>, <<"tr", "si">>, <<"ro", "si">>, <<"is", "si">>}
    [] o = "parts" -> k \in {"is", "si"} /\ s[1] = "tr" /\ s[2] = "ro"
    [] o = "gettr" -> k = "tr" /\ s[1] \in {"is", "si"}
    [] o = "getro" -> k = "ro" /\ s[1] \in {"is", "si"}
    [] o = "tfset" -> k = "tf"
    [] o = "betw"  -> k = "tr" /\ s[1] \in {"po", "ve"} /\ s[1] = s[2]
    [] o = "move"  -> k \in {"po", "ve"} /\ s[1] = "ve"
    [] o = "diff"  -> k = "ve" /\ s[1] = "po" /\ s[2] = "po"
    [] o = "neg"   -> k = "ve"
    [] o = "vtr"   -> k = "tr" /\ s[1] = "ve"
    [] o = "trv"   -> k = "ve" /\ s[1] = "tr"
    [] o = "eq"    -> k = "none" /\ s[1] = s[2]
    [] o = "turn"  -> k = "none" /\ s[1] = "ro"
    [] o = "fac"   -> k = "none" /\ s[1] = "si"
XArity(o) == CASE o \in {"set", "inv", "tfset", "neg"} -> 0
               [] o \in {"comp", "app", "iapp", "parts", "betw", "diff", "eq"} -> 2
               [] OTHER -> 1
XKinds == XMaps \cup {"po", "ve"}
XSigs(o) == {c \in (XKinds \cup {"none"}) \X [1..XArity(o) -> XKinds] : XSig(o, c[1], c[2])}
XTyped(o, t, s) ==
  /\ Len(s) = XArity(o)
  /\ \A i \in DOMAIN s : XN(s[i]) = IF t = 0 THEN XN(s[1]) ELSE XN(t)
  /\ XSig(o, IF t = 0 THEN "none" ELSE XK(t), [i \in DOMAIN s |-> XK(s[i])])
  /\ (o = "turn" => XN(s[1]) = 2)
XCands(o) == {c \in (XIds \cup {0}) \X [1..XArity(o) -> XIds] : XTyped(o, c[1], c[2])}

XEffect(st, o, t, s, p) ==
  LET n == XN(t)
      x == st[t]
      a == st[s[1]]
      b == st[s[2]]
      k1 == XK(s[1])
      k2 == XK(s[2])
  IN
  CASE o = "set"   -> SubSeq(p, 1, XSize(XK(t), n))
    [] o = "copy"  -> a
    [] o = "inv"   -> XInvOf(XK(t), n, x)
    [] o = "invof" -> XInvOf(k1, n, a)
    [] o = "comp"  -> XComp(k1, k2, n, a, b)
    [] o = "app"   -> XAct(k1, n, a, k2, b)
    [] o = "iapp"  -> LET i == XInvOf(k1, n, a) IN IF XFits(i) THEN XAct(k1, n, i, k2, b) ELSE [j \in DOMAIN b |-> XBad]
    [] o = "totf"  -> XHom(k1, n, a)
    [] o = "up"    -> XRo(k1, n, a) \o XOff(k1, n, a) \o (IF XK(t) = "si" THEN <<XU>> ELSE <<>>)
    [] o = "parts" -> b \o a \o (IF XK(t) = "si" THEN <<p[1]>> ELSE <<>>)
    [] o \in {"gettr"} -> XOff(k1, n, a)
    [] o = "getro" -> XRo(k1, n, a)
    [] o = "tfset" -> [x EXCEPT ![p[1] + 1] = p[2]]
    [] o \in {"betw"} -> XMinus(b, a)
    [] o = "diff"  -> XMinus(a, b)
    [] o = "move"  -> XPlus(x, a)
    [] o = "neg"   -> XNeg(x)
    [] o \in {"vtr", "trv"} -> a
(* quarter turns a plane rotation makes, from -1 to 2 *)
XTurn(p) == CHOOSE k \in {-1, 0, 1, 2} : XP(p, 1, 2) = CASE k = 0 -> <<XU, 0>> [] k = 1 -> <<0, XU>> [] k = 2 -> <<0 - XU, 0>> [] k = -1 -> <<0, 0 - XU>>
XValue(st, o, s) ==
  CASE o = "eq"   -> IF st[s[1]] = st[s[2]] THEN <<1>> ELSE <<0>>
    [] o = "turn" -> <<XTurn(st[s[1]])>>
    [] o = "fac"  -> <<XFa("si", XN(s[1]), st[s[1]])>>

XAfter(st, o, t, s, p) == IF o \in XReads THEN st ELSE [st EXCEPT ![t] = XEffect(st, o, t, s, p)]
XFlat(st) == FlattenSeq(st)
XCut(flat) == [i \in XIds |-> LET before == FoldLeft(LAMBDA acc, j : acc + XSize(XK(j), XN(j)), 0, [j \in 1..(i - 1) |-> j])
                              IN SubSeq(flat, before + 1, before + XSize(XK(i), XN(i)))]
(* the recorded call e takes st to nx *)
XCall(e, st, nx) ==
  IF e.o = "init" THEN nx = XCut(e.a[1]) /\ e.r = e.a[1]
  ELSE /\ XTyped(e.o, e.t, e.a[1])
       /\ nx = XAfter(st, e.o, e.t, e.a[1], e.a[2])
       /\ e.x = IF e.o \in XReads THEN XValue(st, e.o, e.a[1]) ELSE <<>>
       /\ e.r = XFlat(nx)
=============================================================================
