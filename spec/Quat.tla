-------------------------------- MODULE Quat -------------------------------
(* Quaternions <<scalar, x, y, z>> and the rotations they represent. *)
EXTENDS Mat, Cpx

QOne == <<1 % P, 0, 0, 0>>
QZero == <<0, 0, 0, 0>>
QVec(q) == <<q[2], q[3], q[4]>>
QMk(s, v) == <<s, v[1], v[2], v[3]>>
(* Hamilton's product: (s, u)(t, v) = (st - u.v, s v + t u + u x v) *)
QMul(p, q) == QMk(Fsub(Fmul(p[1], q[1]), Dot(QVec(p), QVec(q))),
                  VAdd(VAdd(VScale(QVec(q), p[1]), VScale(QVec(p), q[1])), Cross(QVec(p), QVec(q))))
QConj(q) == QMk(q[1], VNeg(QVec(q)))
RECURSIVE QPow(_, _)
QPow(z, n) == IF n = 0 THEN QOne ELSE QMul(z, QPow(z, n - 1))
QGood(r) == Len(r) = 4 /\ IsScalars(r)
IsQInv(r, q) == QGood(r) /\ QMul(r, q) = QOne /\ QMul(q, r) = QOne
IsQPow(r, q, n) == IF n >= 0 THEN r = QPow(q, n) ELSE IsQInv(r, QPow(q, -n))

(* the ten products q_i q_j, i <= j, of a quaternion *)
QProds(q) == << Fmul(q[1], q[1]), Fmul(q[1], q[2]), Fmul(q[1], q[3]), Fmul(q[1], q[4]),
                Fmul(q[2], q[2]), Fmul(q[2], q[3]), Fmul(q[2], q[4]),
                Fmul(q[3], q[3]), Fmul(q[3], q[4]), Fmul(q[4], q[4]) >>
PNorm(t) == Fsum(<<t[1], t[5], t[8], t[10]>>)
(* N(q) times the rotation v |-> q v q^-1, as a column-major matrix,         *)
(* from the products t of q                                                  *)
NRot(t) == LET D(x, y, z, w) == Fsub(Fadd(x, y), Fadd(z, w))
               S2(x, y) == Fmul(Two, Fadd(x, y))
               M2(x, y) == Fmul(Two, Fsub(x, y))
           IN << D(t[1], t[5], t[8], t[10]), S2(t[6], t[4]), M2(t[7], t[3]),
                 M2(t[6], t[4]), D(t[1], t[8], t[5], t[10]), S2(t[9], t[2]),
                 S2(t[7], t[3]), M2(t[9], t[2]), D(t[1], t[10], t[5], t[8]) >>
(* rotation of v by q, times N(q) *)
NTurn(q, v) == QVec(QMul(QMul(q, QMk(0, v)), QConj(q)))
IsRotOf(r, q) == Len(r) = 9 /\ IsScalars(r) /\ VScale(r, NormSq(q)) = NRot(QProds(q))
Aff(m) == Embed(m, 3, 4)
Lin(m) == <<m[1], m[2], m[3], m[5], m[6], m[7], m[9], m[10], m[11]>>
(* x^T T x for the vector part of the products t *)
QuadV(t, x) == Fsum(<<Fmul(t[5], Fsq(x[1])), Fmul(t[8], Fsq(x[2])), Fmul(t[10], Fsq(x[3])),
                      Fmul(Two, Fmul(t[6], Fmul(x[1], x[2]))), Fmul(Two, Fmul(t[7], Fmul(x[1], x[3]))),
                      Fmul(Two, Fmul(t[9], Fmul(x[2], x[3])))>>)
(* the products t of a unit quaternion turn the direction of v (length nv)   *)
(* into that of w (length nw) about an axis perpendicular to both            *)
IsShortArc(t, v, nv, w, nw) ==
  /\ Fsq(nv) = NormSq(v) /\ Fsq(nw) = NormSq(w)
  /\ PNorm(t) = 1 % P
  /\ VScale(MatVec(NRot(t), v, 3, 3), nw) = VScale(w, nv)
  /\ QuadV(t, v) = 0

(* the complex number z on the plane of 1 and the unit vector u *)
OnAxis(z, u) == QMk(z[1], VScale(u, z[2]))
Coord(r, u) == <<r[1], Dot(QVec(r), u)>>
AlongQ(r, u) == QGood(r) /\ r = OnAxis(Coord(r, u), u)
(* observations of a result in that plane: <<e^a, cos b, sin b, tag>> *)

QuatPost(o, d, a, r) ==
  CASE o = "add"    -> r = VAdd(a[1], a[2])
    [] o = "sub"    -> r = VSub(a[1], a[2])
    [] o = "neg"    -> r = VNeg(a[1])
    [] o = "mul"    -> r = QMul(a[1], a[2])
    [] o = "assoc"  -> r = QMul(QMul(a[1], a[2]), a[3])
    [] o = "smul"   -> r = VScale(a[1], a[2][1])
    [] o = "sdiv"   -> QGood(r) /\ VScale(r, a[2][1]) = a[1]
    [] o = "remi"   -> r = [i \in 1..4 |-> TRem(a[1][i], a[2][1])]
    [] o = "conj"   -> r = QConj(a[1])
    [] o = "conjmul" -> r = QMul(QConj(a[2]), QConj(a[1]))
    [] o = "normsq" -> r = <<NormSq(a[1])>>
    [] o = "norm"   -> r = <<NormSq(a[1]), IF a[1] = QZero THEN 0 ELSE 1>>
    [] o = "distsq" -> r = <<NormSq(VSub(a[1], a[2]))>>
    [] o = "dist"   -> r = <<NormSq(VSub(a[1], a[2])), IF a[1] = a[2] THEN 0 ELSE 1>>
    [] o = "normmul" -> r = <<Fmul(NormSq(a[1]), NormSq(a[2]))>>
    [] o = "l1"     -> r = <<Abs(a[1][1]) + Abs(a[1][2]) + Abs(a[1][3]) + Abs(a[1][4])>>
    [] o = "dot"    -> r = <<Dot(a[1], a[2])>>
    [] o = "squared" -> r = QMul(a[1], a[1])
    [] o = "half"   -> QGood(r) /\ VAdd(r, r) = a[1]
    [] o = "inv"    -> IF a[1] = QZero THEN r = <<>> ELSE IsQInv(r, a[1])
    [] o = "invp"   -> IF a[1] = QZero THEN r = <<-9>> ELSE IsQInv(r, a[1])
    [] o = "canInv" -> r = B(a[1] # QZero)
    [] o = "divl"   -> IF a[2] = QZero THEN r = <<>> ELSE QGood(r) /\ QMul(a[2], r) = a[1]
    [] o = "divr"   -> IF a[2] = QZero THEN r = <<>> ELSE QGood(r) /\ QMul(r, a[2]) = a[1]
    [] o = "inner"  -> QGood(r) /\ VScale(r, Two) = VAdd(QMul(a[1], a[2]), QMul(a[2], a[1]))
    [] o = "outer"  -> QGood(r) /\ VScale(r, Two) = VSub(QMul(a[1], a[2]), QMul(a[2], a[1]))
    [] o = "project" -> QGood(r) /\ IsProjection(r, a[1], a[2])
    [] o = "reject" -> QGood(r) /\ IsProjection(VSub(a[1], r), a[1], a[2])
    [] o = "lerp"   -> r = Lerp(a[1], a[2], a[3][1])
    [] o = "scalar" -> r = <<a[1][1]>>
    [] o = "vector" -> r = QVec(a[1])
    [] o = "parts"  -> r = a[1]
    [] o = "ofreal" -> r = <<a[1][1], 0, 0, 0>>
    [] o = "ofpure" -> r = QMk(0, a[1])
    [] o = "fill"   -> r = <<a[1][1], a[1][1], a[1][1], a[1][1]>>
    [] o = "unit"   -> r = VUnit(4, d[1])
    [] o = "zero"   -> r = QZero
    [] o = "table"  -> r = QMul(VUnit(4, d[1]), VUnit(4, d[2]))
    [] o = "ispure" -> r = B(a[1][1] = 0)
    [] o = "isreal" -> r = B(QVec(a[1]) = <<0, 0, 0>>)
    [] o = "iszero" -> r = B(a[1] = QZero)
    [] o = "isone"  -> r = B(a[1] = QOne)
    [] o = "isfin"  -> r = B(a[1] = <<0, 0, 0, 0>>)
    (* rotations *)
    [] o = "axang"  -> r = QMk(a[1][1], VScale(a[2], a[1][2]))
    [] o = "tomat"  -> IsRotOf(r, a[1])
    [] o = "toaff"  -> Len(r) = 16 /\ IsScalars(r) /\ IsRotOf(Lin(r), a[1]) /\ r = Aff(Lin(r))
    [] o = "prodmat" -> IsRotOf(r, QMul(a[1], a[2]))
    [] o = "turn"   -> Len(r) = 3 /\ IsScalars(r) /\ VScale(r, NormSq(a[1])) = NTurn(a[1], a[2])
    [] o = "frommat" -> Len(r) = 10 /\ IsScalars(r) /\ PNorm(r) = 1 % P /\ NRot(r) = a[1]
    [] o = "roundtrip" -> r = a[1]
    [] o = "between" -> IF d[1] = 1 THEN r = <<>>
                        ELSE Len(r) = 10 /\ IsScalars(r) /\ IsShortArc(r, a[1], a[3][1], a[2], a[3][2])
    (* (q - 1) / (h/2) for the rotation by m h about u, h infinitesimal *)
    [] o = "gen"    -> r = QMk(0, VScale(a[1], a[2][1]))
    (* elementary functions in the plane of the unit vector a[2] *)
    [] o = "exp"    -> r = OnAxis(Polar(a[1]), a[2])
    [] o = "logq"   -> r = Append(a[1], 1)          \* exp of the observed logarithm, range
    [] o = "argq"   -> r = <<a[1][2], a[1][3], 1>>
    [] o = "powf"   -> IsQPow(r, a[1], d[1])
    [] o = "sqrt"   -> Len(r) = 5 /\ r[5] = 1 /\ QGood(SubSeq(r, 1, 4)) /\ QMul(SubSeq(r, 1, 4), SubSeq(r, 1, 4)) = a[1]
    [] o = "polarrt" -> r = a[1]
    [] o = "cosh"   -> AlongQ(r, a[2]) /\ Dbl(Coord(r, a[2])) = Cosh2(a[1])
    [] o = "sinh"   -> AlongQ(r, a[2]) /\ Dbl(Coord(r, a[2])) = Sinh2(a[1])
    [] o = "tanh"   -> AlongQ(r, a[2]) /\ CMul(Coord(r, a[2]), Cosh2(a[1])) = Sinh2(a[1])
    [] o = "cos"    -> AlongQ(r, a[2]) /\ Dbl(Coord(r, a[2])) = Cos2(a[1])
    [] o = "sin"    -> AlongQ(r, a[2]) /\ CMul(CI, Dbl(Coord(r, a[2]))) = ISin2(a[1])
    [] o = "tan"    -> AlongQ(r, a[2]) /\ CMul(CMul(CI, Coord(r, a[2])), Cos2(a[1])) = ISin2(a[1])
    (* limits, and first order at the origin, as for complex numbers *)
    [] o = "tanhfar" -> r = <<Int2F(d[1]), 0, 0, 0>>
    [] o = "tanfar" -> r = QMk(0, a[1])
    [] o = "lin"    -> r = a[1]
    [] o = "linarg" -> r = <<NormSq(QVec(a[1]))>>   \* squared
    [] o = "acosh"  -> ObsOk(r) /\ Cosh2(Obs(r)) = Dbl(a[1])
    [] o = "asinh"  -> ObsOk(r) /\ Sinh2(Obs(r)) = Dbl(a[1])
    [] o = "atanh"  -> ObsOk(r) /\ Sinh2(Obs(r)) = CMul(a[1], Cosh2(Obs(r)))
    [] o = "acos"   -> ObsOk(r) /\ Cos2(Obs(r)) = Dbl(a[1])
    [] o = "asin"   -> ObsOk(r) /\ ISin2(Obs(r)) = CMul(CI, Dbl(a[1]))
    [] o = "atan"   -> ObsOk(r) /\ ISin2(Obs(r)) = CMul(CMul(CI, a[1]), Cos2(Obs(r)))
    (* interpolation from a[1] to a[3] = (a sign) a[1] g^k, g = a[2], by j/k; *)
    (* either sign represents the same rotation                               *)
    (* (also beyond the ends: g is a unit, so its conjugate is its inverse)   *)
    [] o = "slerp"  -> LET t == QMul(a[1], QPow(a[2], d[2]))
                           w == QMul(a[1], IF d[1] >= 0 THEN QPow(a[2], d[1]) ELSE QPow(QConj(a[2]), -d[1]))
                       IN  a[3] \in {t, VNeg(t)} /\ r \in {w, VNeg(w)}
    [] o = "slerpend" -> r \in {a[1], VNeg(a[1])}
    (* normalised linear interpolation: products of the result, direction     *)
    [] o = "nlerp"  -> LET w == Lerp(a[1], a[2], a[3][1])
                       IN  Len(r) = 11 /\ IsScalars(r) /\ r[11] = 1 /\ PNorm(r) = 1 % P
                           /\ VScale(SubSeq(r, 1, 10), NormSq(w)) = QProds(w)
=============================================================================
