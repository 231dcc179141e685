-------------------------------- MODULE Xform -------------------------------
(* Transformations of n-dimensional space.  A transformation is (kind,       *)
(* parameters); what it means is its homogeneous matrix.                     *)
EXTENDS Rot, Homog

KTrans == 1   KRot == 2   KScale == 3   KShear == 4   KRefl == 5   KIso == 6   KSim == 7   KGen == 8

(* linear map l and displacement t *)
Affine(n, l, t) == Mk(n + 1, n + 1, LAMBDA i, j :
    IF i <= n /\ j <= n THEN At(l, n, i, j) ELSE IF i <= n THEN t[i] ELSE IF j <= n THEN 0 ELSE 1 % P)
Zero(n) == [i \in 1..n |-> 0]
Outer(n, u, v) == Mk(n, n, LAMBDA i, j : Fmul(u[i], v[j]))
Part(p, i, n) == SubSeq(p, i, i + n - 1)
(* x |-> x + f ((x - o) . v) d *)
PlaneMap(n, f, o, d, v) == Affine(n, VAdd(Ident(n), VScale(Outer(n, d, v), f)), VScale(d, Fneg(Fmul(f, Dot(o, v)))))

Hom(n, k, p) ==
  CASE k = KTrans -> Affine(n, Ident(n), p)
    [] k = KRot   -> Affine(n, p, Zero(n))
    [] k = KScale -> Affine(n, DiagOf(n, p), Zero(n))
    (* factor, origin, direction, normal *)
    [] k = KShear -> PlaneMap(n, p[1], Part(p, 2, n), Part(p, 2 + n, n), Part(p, 2 + 2 * n, n))
    (* normal, a point of the mirror *)
    [] k = KRefl  -> PlaneMap(n, Fneg(Two), Part(p, n + 1, n), Part(p, 1, n), Part(p, 1, n))
    [] k = KIso   -> Affine(n, Part(p, 1, n * n), Part(p, n * n + 1, n))
    (* scale first, then rotate, then translate *)
    [] k = KSim   -> Affine(n, VScale(Part(p, 1, n * n), p[n * n + n + 1]), Part(p, n * n + 1, n))
    [] k = KGen   -> p
(* the parameters are ones a caller may pass *)
Legal(n, k, p) ==
  CASE k \in {KTrans, KScale} -> Len(p) = n
    [] k = KRot -> IsRotation(p, n)
    [] k = KIso -> IsRotation(Part(p, 1, n * n), n)
    [] k = KSim -> IsRotation(Part(p, 1, n * n), n) /\ p[n * n + n + 1] # 0
    [] k = KShear -> LET d == Part(p, 2 + n, n) v == Part(p, 2 + 2 * n, n) IN NormSq(d) = 1 % P /\ NormSq(v) = 1 % P /\ Dot(d, v) = 0
    [] k = KRefl -> NormSq(Part(p, 1, n)) = 1 % P
    [] k = KGen -> Len(p) = (n + 1) * (n + 1)
LinOf(n, h) == Mk(n, n, LAMBDA i, j : At(h, n + 1, i, j))

(* r is the image of the point x *)
IsImageP(r, h, x, n) ==
  LET y == MatVec(h, Append(x, 1 % P), n + 1, n + 1)
  IN  Len(r) = n /\ IsScalars(r) /\ Last(y) # 0 /\ VScale(r, Last(y)) = Front(y)
ImageV(h, v, n) == Front(MatVec(h, Append(v, 0), n + 1, n + 1))
Singular(h, n) == Det(h, n + 1) = 0
Mul1(n, g, h) == MatMul(g, h, n + 1, n + 1, n + 1)

XformPost(o, d, a, r) ==
  LET n == d[1] IN
  CASE o = "same"   -> r = a[1]
    [] o = "hom"    -> Legal(n, d[2], a[1]) /\ r = Hom(n, d[2], a[1])
    [] o = "lin"    -> Legal(n, d[2], a[1]) /\ r = LinOf(n, Hom(n, d[2], a[1]))
    [] o = "ident"  -> r = Ident(n + 1)
    [] o = "actp"   -> Legal(n, d[2], a[1]) /\ IsImageP(r, Hom(n, d[2], a[1]), a[2], n)
    [] o = "actv"   -> Legal(n, d[2], a[1]) /\ r = ImageV(Hom(n, d[2], a[1]), a[2], n)
    [] o = "invp"   -> IF Singular(Hom(n, d[2], a[1]), n) THEN r = <<>>
                       ELSE Len(r) = n /\ IsScalars(r) /\ IsImageP(a[2], Hom(n, d[2], a[1]), r, n)
    [] o = "invv"   -> IF Singular(Hom(n, d[2], a[1]), n) THEN r = <<>>
                       ELSE Len(r) = n /\ IsScalars(r) /\ a[2] = ImageV(Hom(n, d[2], a[1]), r, n)
    [] o = "invhom" -> IsInverse(r, Hom(n, d[2], a[1]), n + 1)
    [] o = "tryinv" -> IF Singular(Hom(n, d[2], a[1]), n) THEN r = <<>> ELSE IsInverse(r, Hom(n, d[2], a[1]), n + 1)
    [] o = "comp"   -> r = Mul1(n, Hom(n, d[2], a[1]), Hom(n, d[3], a[2]))
    [] o = "compp"  -> IsImageP(r, Mul1(n, Hom(n, d[2], a[1]), Hom(n, d[3], a[2])), a[3], n)
    [] o = "compv"  -> r = ImageV(Mul1(n, Hom(n, d[2], a[1]), Hom(n, d[3], a[2])), a[3], n)
    [] o = "chain"  -> r = Mul1(n, Hom(n, d[2], a[1]), Mul1(n, Hom(n, d[3], a[2]), Hom(n, d[4], a[3])))
    [] o = "compinv" -> IsInverse(r, Mul1(n, Hom(n, d[2], a[1]), Hom(n, d[3], a[2])), n + 1)

(* Shear::apply_vector and inverse_apply_vector treat the vector as the      *)
(* position of a point (KNOWN_FINDINGS)                                      *)
IsShearVectorBug(o, d, a, r) ==
  /\ o \in {"actv", "invv"} /\ d[2] = KShear /\ \E i \in 2..(d[1] + 1) : a[1][i] # 0
  /\ o = "actv" => IsImageP(r, Hom(d[1], KShear, a[1]), a[2], d[1])
  /\ o = "invv" => Len(r) = d[1] /\ IsScalars(r) /\ IsImageP(a[2], Hom(d[1], KShear, a[1]), r, d[1])
=============================================================================
