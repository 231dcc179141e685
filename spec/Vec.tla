-------------------------------- MODULE Vec --------------------------------
(* Vectors and points: sequences of scalars.                                 *)
EXTENDS Fld

VAdd(a, b) == [i \in 1..Len(a) |-> Fadd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> Fsub(a[i], b[i])]
VNeg(a) == [i \in 1..Len(a) |-> Fneg(a[i])]
VScale(a, s) == [i \in 1..Len(a) |-> Fmul(a[i], s)]
VMul(a, b) == [i \in 1..Len(a) |-> Fmul(a[i], b[i])]
VZero(n) == [i \in 1..n |-> 0]
VFill(n, s) == [i \in 1..n |-> s]
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN 1 % P ELSE 0]
RECURSIVE DotR(_, _, _)
DotR(a, b, n) == IF n = 0 THEN 0 ELSE (DotR(a, b, n - 1) + ((a[n] * b[n]) % P)) % P
Dot(a, b) == DotR(a, b, Len(a))
NormSq(a) == Dot(a, a)
Cross(a, b) == << Fsub(Fmul(a[2], b[3]), Fmul(a[3], b[2])),
                  Fsub(Fmul(a[3], b[1]), Fmul(a[1], b[3])),
                  Fsub(Fmul(a[1], b[2]), Fmul(a[2], b[1])) >>
Triple(a, b, c) == Dot(a, Cross(b, c))
Lerp(a, b, t) == VAdd(a, VScale(VSub(b, a), t))
(* r is the orthogonal projection of a on b, b # 0 *)
IsProjection(r, a, b) == VScale(r, NormSq(b)) = VScale(b, Dot(a, b))
(* r is the mirror image of a in the hyperplane with normal b *)
IsMirror(r, a, b) == VScale(r, NormSq(b)) = VSub(VScale(a, NormSq(b)), VScale(b, Fmul(Two, Dot(a, b))))

(* What each vector or point call may return (arguments a, dimensions d). *)
VecPost(o, d, a, r) ==
  CASE o = "add"     -> r = VAdd(a[1], a[2])
    [] o = "sub"     -> r = VSub(a[1], a[2])
    [] o = "neg"     -> r = VNeg(a[1])
    [] o = "smul"    -> r = VScale(a[1], a[2][1])
    [] o = "sdiv"    -> Len(r) = Len(a[1]) /\ IsScalars(r) /\ VScale(r, a[2][1]) = a[1]
    [] o = "cmul"    -> r = VMul(a[1], a[2])
    [] o = "divi"    -> r = [i \in 1..Len(a[1]) |-> TDiv(a[1][i], a[2][1])]
    [] o = "remi"    -> r = [i \in 1..Len(a[1]) |-> TRem(a[1][i], a[2][1])]
    [] o = "moveto"  -> r = a[2]
    [] o = "id"      -> r = a[1]
    [] o = "zero"    -> r = VZero(d[1])
    [] o = "fill"    -> r = VFill(d[1], a[1][1])
    [] o = "unit"    -> r = VUnit(d[1], d[2])
    [] o = "iszero"  -> r = B(a[1] = VZero(d[1]))
    [] o = "dot"     -> r = <<Dot(a[1], a[2])>>
    [] o = "normsq"  -> r = <<NormSq(a[1])>>
    [] o = "distsq"  -> r = <<NormSq(VSub(a[1], a[2]))>>
    [] o = "cross"   -> r = Cross(a[1], a[2])
    [] o = "triple"  -> r = <<Triple(a[1], a[2], a[3])>>
    [] o = "lerp"    -> r = Lerp(a[1], a[2], a[3][1])
    [] o = "project" -> Len(r) = Len(a[1]) /\ IsScalars(r) /\ IsProjection(r, a[1], a[2])
    [] o = "reflect" -> Len(r) = Len(a[1]) /\ IsScalars(r) /\ IsMirror(r, a[1], a[2])
=============================================================================
