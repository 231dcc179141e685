-------------------------------- MODULE Nrm --------------------------------
(* Norms, normalisation and unit values.  Lengths are irrational in general,  *)
(* so a length l is observed as <<l*l, sign>> and a normalised component as   *)
(* its square and its sign.  Order-theoretic operations use plain integers.   *)
EXTENDS Mat

MaxSeq(s) == FoldLeft(Max2, 0, s)
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
AbsSeq(v) == [i \in 1..Len(v) |-> Abs(v[i])]
SubRaw(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
SqRaw(v) == SumSeq([i \in 1..Len(v) |-> v[i] * v[i]])
ResSeq(v) == [i \in 1..Len(v) |-> Int2F(v[i])]
SgnSeq(v) == [i \in 1..Len(v) |-> Sgn(v[i])]

L1(v) == SumSeq(AbsSeq(v))
Linf(v) == MaxSeq(AbsSeq(v))
(* column-major rows x cols matrices *)
ColSums(m, R, C) == [c \in 1..C |-> SumSeq([r \in 1..R |-> Abs(m[(c - 1) * R + r])])]
RowSums(m, R, C) == [r \in 1..R |-> SumSeq([c \in 1..C |-> Abs(m[(c - 1) * R + r])])]
MatL1(m, R, C) == MaxSeq(ColSums(m, R, C))
MatLinf(m, R, C) == MaxSeq(RowSums(m, R, C))
PPow(v, p) == Fsum([i \in 1..Len(v) |-> Fpow(Int2F(Abs(v[i])), p)])

(* l (observed) is the length of the integer vector v *)
IsLength(l, v) == l = <<Int2F(SqRaw(v)), IF SqRaw(v) = 0 THEN 0 ELSE 1>>
(* u (observed: squares then signs) is v divided by its length *)
IsUnitOf(u, v) ==
  /\ Len(u) = 2 * Len(v) /\ IsScalars(SubSeq(u, 1, Len(v)))
  /\ \A i \in 1..Len(v) : /\ Fmul(u[i], Int2F(SqRaw(v))) = Fmul(Int2F(v[i]), Int2F(v[i]))
                          /\ u[Len(v) + i] = Sgn(v[i])
IsNegUnitOf(u, v) == IsUnitOf(u, [i \in 1..Len(v) |-> 0 - v[i]])
(* u is v itself, in the same observation *)
SameObs(v) == [i \in 1..Len(v) |-> Fsq(Int2F(v[i]))] \o SgnSeq(v)
(* the length of v exceeds k/8 *)
Exceeds(v, k) == 64 * SqRaw(v) > k * k
Tail2(r) == SubSeq(r, 3, Len(r))
Head2(r) == IF Len(r) >= 2 THEN SubSeq(r, 1, 2) ELSE <<>>
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

NrmPost(o, d, a, r) ==
  CASE o = "norm"     -> IsLength(r, a[1])
    [] o = "dist"     -> IsLength(r, SubRaw(a[1], a[2]))
    [] o = "unit"     -> IsUnitOf(r, a[1])
    [] o = "negunit"  -> IsNegUnitOf(r, a[1])
    (* a length followed by a normalised value *)
    [] o = "unitnorm" -> IsLength(Head2(r), a[1]) /\ IsUnitOf(Tail2(r), a[1])
    [] o = "tryunit"  -> IF Exceeds(a[1], d[1]) THEN IsUnitOf(r, a[1]) ELSE r = <<>>
    [] o = "trynorm"  -> IF Exceeds(a[1], d[1]) THEN IsLength(Head2(r), a[1]) /\ IsUnitOf(Tail2(r), a[1]) ELSE r = <<>>
    (* in place: what was returned, and the value afterwards *)
    [] o = "tryinplace" -> IF Exceeds(a[1], d[1]) THEN IsLength(Head2(r), a[1]) /\ IsUnitOf(Tail2(r), a[1])
                           ELSE r = SameObs(a[1])
    [] o = "same"     -> r = SameObs(a[1])
    [] o = "l1"       -> r = <<L1(a[1])>>
    [] o = "linf"     -> r = <<Linf(a[1])>>
    [] o = "dl1"      -> r = <<L1(SubRaw(a[1], a[2]))>>
    [] o = "dlinf"    -> r = <<Linf(SubRaw(a[1], a[2]))>>
    [] o = "ml1"      -> r = <<MatL1(a[1], d[1], d[2])>>
    [] o = "mlinf"    -> r = <<MatLinf(a[1], d[1], d[2])>>
    [] o = "dml1"     -> r = <<MatL1(SubRaw(a[1], a[2]), d[1], d[2])>>
    [] o = "dmlinf"   -> r = <<MatLinf(SubRaw(a[1], a[2]), d[1], d[2])>>
    (* the p-th power of the p-norm, and that it is not negative *)
    [] o = "lp"       -> r = <<PPow(a[1], d[1]), 1>>
    [] o = "dlp"      -> r = <<PPow(SubRaw(a[1], a[2]), d[1]), 1>>
    [] o = "cmin"     -> r = [i \in 1..Len(a[1]) |-> Min2(a[1][i], a[2][i])]
    [] o = "cmax"     -> r = [i \in 1..Len(a[1]) |-> Max2(a[1][i], a[2][i])]
    [] o = "clamp"    -> r = <<Clamp(a[1][1], a[2][1], a[3][1])>>
    [] o = "abs"      -> r = <<Abs(a[1][1])>>
    (* the sign of zero is not observed for floating point *)
    [] o = "signum"   -> r = <<Sgn(a[1][1])>>
    [] o = "copysign" -> a[2][1] # 0 /\ r = <<Abs(a[1][1]) * Sgn(a[2][1])>>
    [] o = "ispos"    -> r = B(a[1][1] > 0)
    [] o = "isneg"    -> r = B(a[1][1] < 0)
=============================================================================
