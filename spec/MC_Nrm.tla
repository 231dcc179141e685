------------------------------- MODULE MC_Nrm ------------------------------
(* Laws of norms on small integer vectors and matrices: what makes them norms *)
(* and how they compare.                                                      *)
EXTENDS Nrm, FiniteSets
VARIABLES v, w
CONSTANTS N, Hi
vars == <<v, w>>
Z == (0 - Hi)..Hi
VS == [1..N -> Z]
AddRaw(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
ScaleRaw(x, k) == [i \in 1..Len(x) |-> k * x[i]]
DotRaw(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
Init == v \in VS /\ w = [i \in 1..N |-> 0]
Next == w = [i \in 1..N |-> 0] /\ w' \in VS /\ v' = v
Spec == Init /\ [][Next]_vars
Definite == \A x \in {v, SubRaw(v, w)} : (L1(x) = 0 <=> \A i \in 1..N : x[i] = 0) /\ (Linf(x) = 0 <=> L1(x) = 0) /\ (SqRaw(x) = 0 <=> L1(x) = 0)
Homogeneous == \A k \in {-3, -1, 0, 2} : L1(ScaleRaw(v, k)) = Abs(k) * L1(v) /\ Linf(ScaleRaw(v, k)) = Abs(k) * Linf(v) /\ SqRaw(ScaleRaw(v, k)) = k * k * SqRaw(v)
Triangle == L1(AddRaw(v, w)) <= L1(v) + L1(w) /\ Linf(AddRaw(v, w)) <= Linf(v) + Linf(w)
(* Cauchy-Schwarz, which is the triangle inequality of the Euclidean norm *)
Cauchy == DotRaw(v, w) * DotRaw(v, w) <= SqRaw(v) * SqRaw(w)
Ordered == Linf(v) * Linf(v) <= SqRaw(v) /\ SqRaw(v) <= L1(v) * L1(v) /\ L1(v) <= N * Linf(v)
Symmetric == L1(SubRaw(v, w)) = L1(SubRaw(w, v)) /\ Linf(SubRaw(v, w)) = Linf(SubRaw(w, v)) /\ SqRaw(SubRaw(v, w)) = SqRaw(SubRaw(w, v))
(* thresholds *)
Threshold == /\ (Exceeds(v, 8) <=> SqRaw(v) > 1) /\ (Exceeds(v, 0) <=> SqRaw(v) > 0)
             /\ \A k \in 0..16 : Exceeds(v, k + 1) => Exceeds(v, k)
ClampLaw == \A i \in 1..N : LET c == Clamp(v[i], -1, 1) IN c \in -1..1 /\ (v[i] \in -1..1 => c = v[i]) /\ Clamp(c, -1, 1) = c
MinMax == \A i \in 1..N : Min2(v[i], w[i]) + Max2(v[i], w[i]) = v[i] + w[i] /\ Min2(v[i], w[i]) <= Max2(v[i], w[i])
(* matrix norms bound the image of a vector (N = 4: a 2x2 matrix) *)
Induced == N = 4 => \A x \in {<<1, 0>>, <<1, 1>>, <<1, -2>>} :
    LET y == <<v[1] * x[1] + v[3] * x[2], v[2] * x[1] + v[4] * x[2]>> IN
    /\ L1(y) <= MatL1(v, 2, 2) * L1(x) /\ Linf(y) <= MatLinf(v, 2, 2) * Linf(x)
    /\ MatL1(v, 2, 2) = MatLinf(<<v[1], v[3], v[2], v[4]>>, 2, 2)
    /\ \E u \in {<<1, 0>>, <<0, 1>>} : L1(<<v[1] * u[1] + v[3] * u[2], v[2] * u[1] + v[4] * u[2]>>) = MatL1(v, 2, 2)
SignLaw == \A i \in 1..N : Sgn(v[i]) * Abs(v[i]) = v[i] /\ Abs(v[i]) >= 0
=============================================================================
