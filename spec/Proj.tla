-------------------------------- MODULE Proj --------------------------------
(* Projections: view volume [-l, r] x [-b, t] x [-f, -n] (perspective: the   *)
(* frustum whose near face is that rectangle) to the cube [-1, 1]^3.         *)
EXTENDS Xform

(* v = <<l, r, b, t, n, f>> *)
One == 1 % P
Neg1 == Fneg(1 % P)
Sides == {One, Neg1}
SideX(v, s) == IF s = One THEN v[2] ELSE Fneg(v[1])
SideY(v, s) == IF s = One THEN v[4] ELSE Fneg(v[3])
(* homogeneous corner; far corners are those of the near face scaled by f/n *)
PCorner(v, x, y, z) ==
  IF z = Neg1 THEN <<SideX(v, x), SideY(v, y), Fneg(v[5]), One>>
  ELSE <<Fmul(SideX(v, x), v[6]), Fmul(SideY(v, y), v[6]), Fneg(Fmul(v[6], v[5])), v[5]>>
OCorner(v, x, y, z) == <<SideX(v, x), SideY(v, y), Fneg(IF z = Neg1 THEN v[5] ELSE v[6]), One>>
Hits(m, c, x, y, z) ==
  LET i == MatVec(m, c, 4, 4) IN i[4] # 0 /\ i[1] = Fmul(x, i[4]) /\ i[2] = Fmul(y, i[4]) /\ i[3] = Fmul(z, i[4])
IsPersp(m, v) ==
  /\ GoodN(m, 16) /\ LastRow(m) = <<0, 0, Neg1, 0>>
  /\ \A x \in Sides, y \in Sides, z \in Sides : Hits(m, PCorner(v, x, y, z), x, y, z)
IsOrtho(m, v) ==
  /\ GoodN(m, 16) /\ LastRow(m) = <<0, 0, 0, One>>
  /\ \A x \in Sides, y \in Sides, z \in Sides : Hits(m, OCorner(v, x, y, z), x, y, z)

(* the matrices themselves (that they are the ones above is checked by MC)   *)
Quo(a, b) == Fmul(a, Finv(b))
PerspMat(v) == LET w == Finv(Fadd(v[1], v[2]))  h == Finv(Fadd(v[3], v[4]))  d == Finv(Fsub(v[6], v[5])) IN
  << Fmul(Fmul(Two, v[5]), w), 0, 0, 0,
     0, Fmul(Fmul(Two, v[5]), h), 0, 0,
     Fmul(Fsub(v[2], v[1]), w), Fmul(Fsub(v[4], v[3]), h), Fneg(Fmul(Fadd(v[6], v[5]), d)), Neg1,
     0, 0, Fneg(Fmul(Fmul(Two, Fmul(v[5], v[6])), d)), 0 >>
OrthoMat(v) == LET w == Finv(Fadd(v[1], v[2]))  h == Finv(Fadd(v[3], v[4]))  d == Finv(Fsub(v[6], v[5])) IN
  << Fmul(Two, w), 0, 0, 0,
     0, Fmul(Two, h), 0, 0,
     0, 0, Fneg(Fmul(Two, d)), 0,
     Fneg(Fmul(Fsub(v[2], v[1]), w)), Fneg(Fmul(Fsub(v[4], v[3]), h)), Fneg(Fmul(Fadd(v[6], v[5]), d)), One >>

(* volume of a symmetric frustum: half angle <<cos, sin>> with tangent g,     *)
(* aspect ratio, near, far                                                    *)
FovVol(g, asp, n, f) == LET t == Fmul(n, g) IN << Fmul(t, asp), Fmul(t, asp), t, t, n, f >>

ProjPost(o, d, a, r) ==
  CASE o = "persp"  -> IsPersp(r, a[1])
    [] o = "ortho"  -> IsOrtho(r, a[1])
    (* a[1] = <<g, aspect, n, f>>, a[2] = <<cos, sin>> of half the field of view *)
    [] o = "fov"    -> UnitPair(a[2]) /\ Fmul(a[1][1], a[2][1]) = a[2][2] /\ IsPersp(r, FovVol(a[1][1], a[1][2], a[1][3], a[1][4]))
    [] o = "fovp"   -> r = a[1]
    [] o = "param"  -> r = a[1]
    [] o = "aspect" -> Len(r) = 1 /\ IsScalars(r) /\ Fmul(r[1], Fadd(a[1][3], a[1][4])) = Fadd(a[1][1], a[1][2])
    (* cotangent of the vertical field of view, which is in (0, pi) *)
    [] o = "vfov"   -> LET v == a[1] IN
                       Len(r) = 2 /\ IsScalars(r) /\ r[2] = 1
                       /\ Fmul(r[1], Fmul(v[5], Fadd(v[3], v[4]))) = Fsub(Fsq(v[5]), Fmul(v[3], v[4]))
    [] o = "pp"     -> IsImageP(r, PerspMat(a[1]), a[2], 3)
    [] o = "op"     -> IsImageP(r, OrthoMat(a[1]), a[2], 3)
    [] o = "ov"     -> r = ImageV(OrthoMat(a[1]), a[2], 3)
    [] o = "upp"    -> GoodN(r, 3) /\ IsImageP(a[2], PerspMat(a[1]), r, 3)
    [] o = "uop"    -> GoodN(r, 3) /\ IsImageP(a[2], OrthoMat(a[1]), r, 3)
    [] o = "uov"    -> GoodN(r, 3) /\ a[2] = ImageV(OrthoMat(a[1]), r, 3)
    [] o = "axes"   -> r = <<One, 0, 0, 0, One, 0, 0, 0, One, 0, 0, Neg1, One, 0, 0, 0, One, 0, 0, 0, One, 0, 0, One>>
    [] o = "bounds" -> r = <<Neg1, One, Neg1, One, Neg1, One>>
=============================================================================
