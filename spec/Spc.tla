-------------------------------- MODULE Spc --------------------------------
(* Values beyond the finite numbers.                                         *)
(*                                                                           *)
(* 1. The circular and hyperbolic functions of a complex number and their    *)
(*    inverses when a component is infinite or NaN: the limits of C99's      *)
(*    Annex G.  Components are observed by class; the sign of zero is not    *)
(*    observed, so where a limit depends on it both are allowed.             *)
(* 2. Predicates: equality, zero, identity, finiteness.                      *)
EXTENDS Fld

(* classes of an argument's component:                                       *)
(* -2 -infinity, -1 negative, 0 zero, 1 positive, 2 +infinity, 3 NaN         *)
Classes == {-2, -1, 0, 1, 2, 3}
SpcFin(c) == c \in {-1, 0, 1}
SpcInf(c) == c \in {-2, 2}
SpcNan(c) == c = 3
Signs(c) == IF c \in {0, 3} THEN {-1, 1} ELSE {Sgn(c)}
NegC(c) == IF c = 3 THEN 3 ELSE -c
(* classes of a result: multiples of pi/4 up to pi as -4..4, +-10 for +-1,   *)
(* +-50 for the infinities, 99 for NaN                                       *)
Nan == 99
Oo == 50
One1 == 10
NegR(c) == IF c = Nan THEN Nan ELSE -c
NN == {<<Nan, Nan>>}
(* (cy, sy): signs of the cosine and the sine of the imaginary part          *)
SpAsinh(x, y) ==
  CASE SpcInf(x) /\ SpcNan(y) -> {<<Sgn(x) * Oo, Nan>>}
    [] SpcInf(x) /\ SpcInf(y) -> {<<Sgn(x) * Oo, Sgn(y)>>}
    [] SpcInf(x) /\ SpcFin(y) -> {<<Sgn(x) * Oo, 0>>}
    [] SpcNan(x) /\ SpcInf(y) -> {<<Oo, Nan>>, <<-Oo, Nan>>}
    [] SpcNan(x) /\ y = 0     -> {<<Nan, 0>>}
    [] SpcNan(x)              -> NN
    [] SpcFin(x) /\ SpcInf(y) -> {<<s * Oo, Sgn(y) * 2>> : s \in Signs(x)}
    [] OTHER -> NN
SpAcosh(x, y) ==
  CASE SpcInf(x) /\ SpcNan(y) -> {<<Oo, Nan>>}
    [] SpcInf(x) /\ SpcInf(y) -> {<<Oo, Sgn(y) * (IF x > 0 THEN 1 ELSE 3)>>}
    [] SpcInf(x) /\ SpcFin(y) -> {<<Oo, s * (IF x > 0 THEN 0 ELSE 4)>> : s \in Signs(y)}
    [] SpcNan(x) /\ SpcInf(y) -> {<<Oo, Nan>>}
    [] SpcNan(x)              -> NN
    [] SpcFin(x) /\ SpcInf(y) -> {<<Oo, Sgn(y) * 2>>}
    [] OTHER -> NN \cup (IF x = 0 THEN {<<Nan, 2>>, <<Nan, -2>>} ELSE {})
SpAcos(x, y) ==
  CASE SpcInf(x) /\ SpcNan(y) -> {<<Nan, Oo>>, <<Nan, -Oo>>}
    [] SpcInf(x) /\ SpcInf(y) -> {<<IF x > 0 THEN 1 ELSE 3, -Sgn(y) * Oo>>}
    [] SpcInf(x) /\ SpcFin(y) -> {<<IF x > 0 THEN 0 ELSE 4, -s * Oo>> : s \in Signs(y)}
    [] SpcNan(x) /\ SpcInf(y) -> {<<Nan, -Sgn(y) * Oo>>}
    [] SpcNan(x)              -> NN
    [] SpcFin(x) /\ SpcInf(y) -> {<<2, -Sgn(y) * Oo>>}
    [] OTHER -> IF x = 0 THEN {<<2, Nan>>} ELSE NN
SpAtanh(x, y) ==
  CASE SpcInf(y)              -> {<<0, Sgn(y) * 2>>}
    [] SpcNan(y)              -> IF SpcInf(x) \/ x = 0 THEN {<<0, Nan>>} ELSE NN
    [] SpcNan(x)              -> NN
    [] OTHER                  -> {<<0, s * 2>> : s \in Signs(y)}
SpSinh(x, y, cy, sy) ==
  CASE SpcInf(x) /\ ~SpcFin(y) -> {<<Oo, Nan>>, <<-Oo, Nan>>}
    [] SpcInf(x) /\ y = 0      -> {<<Sgn(x) * Oo, 0>>}
    [] SpcInf(x)               -> {<<Sgn(x) * cy * Oo, sy * Oo>>}
    [] SpcNan(x) /\ y = 0      -> {<<Nan, 0>>}
    [] SpcNan(x)               -> NN
    [] OTHER                   -> IF x = 0 THEN {<<0, Nan>>} ELSE NN
SpCosh(x, y, cy, sy) ==
  CASE SpcInf(x) /\ SpcNan(y) -> {<<Oo, Nan>>}
    [] SpcInf(x) /\ SpcInf(y) -> {<<Oo, Nan>>, <<-Oo, Nan>>}
    [] SpcInf(x) /\ y = 0     -> {<<Oo, 0>>}
    [] SpcInf(x)              -> {<<cy * Oo, Sgn(x) * sy * Oo>>}
    [] SpcNan(x) /\ y = 0     -> {<<Nan, 0>>}
    [] SpcNan(x)              -> NN
    [] OTHER                  -> IF x = 0 THEN {<<Nan, 0>>} ELSE NN
SpTanh(x, y) ==
  CASE SpcInf(x)              -> {<<Sgn(x) * One1, 0>>}
    [] SpcNan(x) /\ y = 0     -> {<<Nan, 0>>}
    [] SpcNan(x)              -> NN
    [] OTHER                  -> NN \cup (IF x = 0 THEN {<<0, Nan>>} ELSE {})
(* f(z) = -i g(iz) *)
Turned(w) == <<w[2], NegR(w[1])>>

(* z = <<x, y>> has a component that is not finite; g = signs of             *)
(* cos x, sin x, cos y, sin y (of the finite ones)                           *)
SpLimit(o, x, y, g) ==
  CASE o = "asinh" -> SpAsinh(x, y)
    [] o = "acosh" -> SpAcosh(x, y)
    [] o = "acos"  -> SpAcos(x, y)
    [] o = "atanh" -> SpAtanh(x, y)
    [] o = "sinh"  -> SpSinh(x, y, g[3], g[4])
    [] o = "cosh"  -> SpCosh(x, y, g[3], g[4])
    [] o = "tanh"  -> SpTanh(x, y)
    [] o = "asin"  -> {Turned(w) : w \in SpAsinh(NegC(y), x)}
    [] o = "atan"  -> {Turned(w) : w \in SpAtanh(NegC(y), x)}
    [] o = "sin"   -> {Turned(w) : w \in SpSinh(NegC(y), x, g[1], g[2])}
    [] o = "tan"   -> {Turned(w) : w \in SpTanh(NegC(y), x)}
    [] o = "cos"   -> SpCosh(NegC(y), x, g[1], g[2])
SpFns == {"asinh", "acosh", "acos", "atanh", "sinh", "cosh", "tanh", "asin", "atan", "sin", "tan", "cos"}

(* ---- predicates.  Components: plain integers, or one of these codes ----- *)
PInf == 1000001
NInf == 1000002
NotN == 1000003
Tiny == 1000004       \* the least positive number
Slight == 1000005     \* a small number, far above the rounding of 1
Finite(c) == c \notin {PInf, NInf, NotN}
AllZero(v) == \A i \in DOMAIN v : v[i] = 0
EqSeq(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : v[i] = w[i] /\ v[i] # NotN
At(m, n, r, c) == m[(c - 1) * n + r]

SpcPost(o, v, d, a, r) ==
  CASE o = "limit"    -> r \in SpLimit(v, a[1][1], a[1][2], a[2])
    (* the poles of the inverse hyperbolic tangent *)
    [] o = "pole"     -> a[1][1] # 0 /\ r = <<Sgn(a[1][1]) * Oo, 0>>
    [] o = "finite"   -> r = B(\A i \in DOMAIN a[1] : Finite(a[1][i]))
    [] o = "nan"      -> r = B(\E i \in DOMAIN a[1] : a[1][i] = NotN)
    (* infinite: some component is (left open when another one is NaN) *)
    [] o = "infinite" -> LET inf == \E i \in DOMAIN a[1] : a[1][i] \in {PInf, NInf}
                             non == \E i \in DOMAIN a[1] : a[1][i] = NotN
                         IN r \in {<<0>>, <<1>>} /\ (~(inf /\ non) => r = B(inf))
    [] o = "zero"     -> r = B(AllZero(a[1]))
    [] o = "eq"       -> r = B(EqSeq(a[1], a[2]))
    [] o = "ne"       -> r = B(~EqSeq(a[1], a[2]))
    [] o = "hash"     -> EqSeq(a[1], a[2]) => r = <<1>>
    [] o = "identity" -> r = B(\A i, j \in 1..d[1] : At(a[1], d[1], i, j) = (IF i = j THEN 1 ELSE 0))
    [] o = "diagonal" -> r = B(\A i, j \in 1..d[1] : i # j => At(a[1], d[1], i, j) = 0)
    [] o = "symmetric" -> r = B(\A i, j \in 1..d[1] : At(a[1], d[1], i, j) = At(a[1], d[1], j, i))
    (* the components listed in d vanish *)
    [] o = "zeroat"   -> r = B(\A i \in DOMAIN d : a[1][d[i]] = 0)
    [] o = "one"      -> r = B(a[1][1] = 1 /\ \A i \in 2..Len(a[1]) : a[1][i] = 0)
=============================================================================
