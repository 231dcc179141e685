-------------------------------- MODULE Rot --------------------------------
(* Rotations of the plane and of space, Euler angles, viewing frames.        *)
(* Angles are <<cos, sin>>; unit vectors and lengths are given as such.      *)
EXTENDS Quat, Layout

Rot2(c, s) == <<c, s, Fneg(s), c>>
(* Rodrigues: x |-> cos x + sin (u x x) + (1 - cos)(u . x) u *)
OuterP(u, v) == Mk(3, 3, LAMBDA i, j : Fmul(u[i], v[j]))
AxisRot(u, c, s) == VAdd(VAdd(VScale(Ident(3), c), VScale(CrossMat(u), s)), VScale(OuterP(u, u), Fsub(1 % P, c)))
E3(k) == VUnit(3, k)
AxisOf(d) == IF d[1] = 0 THEN 0 ELSE d[1]
MM3(x, y) == MatMul(x, y, 3, 3, 3)
(* roll about x after yaw about y after pitch about z *)
EulerRot(x, y, z) == MM3(AxisRot(E3(1), x[1], x[2]), MM3(AxisRot(E3(2), y[1], y[2]), AxisRot(E3(3), z[1], z[2])))
Aff2(m) == Embed(m, 2, 3)
GoodN(r, n) == Len(r) = n /\ IsScalars(r)
UnitPair(x) == Fadd(Fsq(x[1]), Fsq(x[2])) = 1 % P
(* r turns the direction of v (length nv) into that of w (length nw) within  *)
(* the plane of v and w                                                      *)
IsTurn3(r, v, nv, w, nw) ==
  /\ Fsq(nv) = NormSq(v) /\ Fsq(nw) = NormSq(w)
  /\ IsRotation(r, 3)
  /\ VScale(MatVec(r, v, 3, 3), nw) = VScale(w, nv)
  /\ MatVec(r, Cross(v, w), 3, 3) = Cross(v, w)
  /\ Cross(v, w) = <<0, 0, 0>> => r = Ident(3)
IsTurn2(r, v, nv, w, nw) ==
  /\ Fsq(nv) = NormSq(v) /\ Fsq(nw) = NormSq(w)
  /\ IsRotation(r, 2) /\ VScale(MatVec(r, v, 2, 2), nw) = VScale(w, nv)

(* Viewing frames: m maps the viewing direction d (length nd) to the z axis  *)
(* (sign +1 left-handed, -1 right-handed) and the upward vector u into the    *)
(* half plane of the y axis (height h > 0).                                   *)
IsLook(m, d, nd, u, h, sgn) ==
  /\ Fsq(nd) = NormSq(d) /\ IsRotation(m, 3)
  /\ MatVec(m, d, 3, 3) = <<0, 0, IF sgn = 1 THEN nd ELSE Fneg(nd)>>
  /\ LET x == MatVec(m, u, 3, 3) IN x[1] = 0 /\ x[2] = h
LookMat(m, inv) == IF inv = 1 THEN Transpose(m, 3, 3) ELSE m
(* the affine part: the eye is mapped to the origin *)
Shift(m) == <<m[13], m[14], m[15]>>
LastRow(m) == <<m[4], m[8], m[12], m[16]>>
IsLookAff(m, eye, d, nd, u, h, sgn) ==
  /\ GoodN(m, 16) /\ LastRow(m) = <<0, 0, 0, 1 % P>>
  /\ IsLook(Lin(m), d, nd, u, h, sgn)
  /\ VAdd(MatVec(Lin(m), eye, 3, 3), Shift(m)) = <<0, 0, 0>>
IsLookAffInv(m, eye, d, nd, u, h, sgn) ==
  /\ GoodN(m, 16) /\ LastRow(m) = <<0, 0, 0, 1 % P>>
  /\ IsLook(Transpose(Lin(m), 3, 3), d, nd, u, h, sgn)
  /\ Shift(m) = eye
(* what Matrix4x4::look_*_inv return instead (KNOWN_FINDINGS): the eye is     *)
(* itself rotated                                                             *)
IsLookAffInvBug(m, eye, d, nd, u, h, sgn) ==
  /\ GoodN(m, 16) /\ LastRow(m) = <<0, 0, 0, 1 % P>>
  /\ IsLook(Transpose(Lin(m), 3, 3), d, nd, u, h, sgn)
  /\ Shift(m) = MatVec(Transpose(Lin(m), 3, 3), eye, 3, 3)

RotPost(o, d, a, r) ==
  CASE o = "rot2"    -> UnitPair(a[1]) /\ r = Rot2(a[1][1], a[1][2])
    [] o = "rot2aff" -> UnitPair(a[1]) /\ r = Aff2(Rot2(a[1][1], a[1][2]))
    [] o = "axis"    -> UnitPair(a[1]) /\ NormSq(a[2]) = 1 % P /\ r = AxisRot(a[2], a[1][1], a[1][2])
    [] o = "axisaff" -> UnitPair(a[1]) /\ r = Aff(AxisRot(a[2], a[1][1], a[1][2]))
    [] o = "axisk"   -> UnitPair(a[1]) /\ r = AxisRot(E3(d[1]), a[1][1], a[1][2])
    [] o = "axiskaff" -> UnitPair(a[1]) /\ r = Aff(AxisRot(E3(d[1]), a[1][1], a[1][2]))
    (* rotations by an infinitesimal angle m h about u: (R - I) / h is the     *)
    (* cross product with m u, (q - 1) / (h/2) the pure quaternion m u         *)
    [] o = "gen"     -> r = VScale(CrossMat(a[1]), a[2][1])
    [] o = "genq"    -> r = QMk(0, VScale(a[1], a[2][1]))
    [] o = "gen2"    -> r = <<0, a[1][1], Fneg(a[1][1]), 0>>
    [] o = "genlen"  -> r = a[1]
    [] o = "between2" -> IsTurn2(r, a[1], a[3][1], a[2], a[3][2])
    [] o = "between3" -> IF d[1] = 1 THEN r = <<>> ELSE IsTurn3(r, a[1], a[3][1], a[2], a[3][2])
    [] o = "ident"   -> r = Ident(d[1])
    [] o = "identaff" -> r = Ident(d[1] + 1)
    [] o = "angle2"  -> r = <<a[1][1], a[1][2], 1>>
    (* the angle of a rotation of space is in [0, pi] about the matching axis *)
    [] o = "angle3"  -> Len(r) = 3 /\ r[1] = a[1][1] /\ r[2] \in {a[1][2], Fneg(a[1][2])} /\ r[3] = 1
    [] o = "axisof"  -> IF a[1][2] = 0 THEN r = <<>> ELSE r = VScale(a[2], a[3][1])
    [] o = "axang"   -> IF a[1][2] = 0 THEN r = <<>>
                        ELSE Len(r) = 6 /\ IsScalars(r) /\ r[6] = 1 /\ UnitPair(<<r[4], r[5]>>)
                             /\ AxisRot(SubSeq(r, 1, 3), r[4], r[5]) = AxisRot(a[2], a[1][1], a[1][2])
    [] o = "inverse" -> r = Transpose(a[1], d[1], d[1])
    [] o = "fromq"   -> IsRotOf(r, a[1])
    [] o = "toq"     -> Len(r) = 10 /\ IsScalars(r) /\ PNorm(r) = 1 % P /\ NRot(r) = a[1]
    [] o = "affine"  -> r = Embed(a[1], d[1], d[1] + 1)
    [] o = "same"    -> r = a[1]
    [] o = "euler"   -> UnitPair(a[1]) /\ UnitPair(a[2]) /\ UnitPair(a[3]) /\ r = EulerRot(a[1], a[2], a[3])
    [] o = "euleraff" -> r = Aff(EulerRot(a[1], a[2], a[3]))
    (* extracted angles: <<cos, sin>> of roll, yaw, pitch, and the range tag  *)
    [] o = "angles"  -> Len(r) = 7 /\ IsScalars(r) /\ r[7] = 1
                        /\ EulerRot(<<r[1], r[2]>>, <<r[3], r[4]>>, <<r[5], r[6]>>) = a[1]
    [] o = "eulerrt" -> r = a[1]
    [] o = "eulzero" -> r = <<0, 0, 0>>
    [] o = "look"    -> GoodN(r, 9) /\ IsLook(LookMat(r, d[2]), a[1], a[3][1], a[2], a[3][2], d[1])
    [] o = "lookq"   -> GoodN(r, 10) /\ PNorm(r) = 1 % P /\ IsLook(LookMat(NRot(r), d[2]), a[1], a[3][1], a[2], a[3][2], d[1])
    [] o = "lookaff" -> IF d[2] = 0 THEN IsLookAff(r, a[4], a[1], a[3][1], a[2], a[3][2], d[1])
                        ELSE IsLookAffInv(r, a[4], a[1], a[3][1], a[2], a[3][2], d[1])
=============================================================================
