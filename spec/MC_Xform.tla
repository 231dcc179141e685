------------------------------ MODULE MC_Xform -----------------------------
(* Laws of the transformation specification in the plane over a small field. *)
(* State: a pipeline of transformations applied one after another to a point  *)
(* and a vector, next to the composed homogeneous matrix and the undo matrix. *)
EXTENDS Xform, FiniteSets
VARIABLES h, back, pt, vec, kind, par, steps
CONSTANT Depth
vars == <<h, back, pt, vec, kind, par, steps>>
V2 == F \X F
U2 == {v \in V2 : NormSq(v) = 1 % P}
Rots == {Rot2(x[1], x[2]) : x \in U2}
Start == {<<1 % P, 0>>, <<Two, 1 % P>>}
(* legal parameters per kind *)
Pars(k) ==
  CASE k = KTrans -> V2
    [] k = KRot   -> Rots
    [] k = KScale -> {v \in V2 : v[1] # 0 /\ v[2] # 0}
    [] k = KShear -> {<<f>> \o o \o x[1] \o x[2] : f \in F, o \in V2, x \in {y \in U2 \X U2 : Dot(y[1], y[2]) = 0}}
    [] k = KRefl  -> {x \o o : x \in U2, o \in V2}
    [] k = KIso   -> {m \o t : m \in Rots, t \in V2}
    [] k = KSim   -> {m \o t \o <<s>> : m \in Rots, t \in V2, s \in F \ {0}}
    [] k = KGen   -> {Affine(2, l, t) : l \in {<<1 % P, 1 % P, 0, 1 % P>>, <<0, 1 % P, 1 % P, 1 % P>>}, t \in {<<0, 0>>, <<1 % P, Two>>}}
(* the inverse, in the parameters of the same kind *)
Rev(k, p) ==
  CASE k = KTrans -> Hom(2, k, VNeg(p))
    [] k = KRot   -> Hom(2, k, Transpose(p, 2, 2))
    [] k = KScale -> Hom(2, k, <<Finv(p[1]), Finv(p[2])>>)
    [] k = KShear -> Hom(2, k, <<Fneg(p[1])>> \o SubSeq(p, 2, 7))
    [] k = KRefl  -> Hom(2, k, p)
    [] k = KIso   -> LET m == Transpose(Part(p, 1, 4), 2, 2) IN Hom(2, k, m \o VNeg(MatVec(m, Part(p, 5, 2), 2, 2)))
    [] k = KSim   -> LET m == Transpose(Part(p, 1, 4), 2, 2) s == Finv(p[7]) IN Hom(2, k, m \o VNeg(VScale(MatVec(m, Part(p, 5, 2), 2, 2), s)) \o <<s>>)
    [] k = KGen   -> LET l == IF p[1] = 0 THEN <<Fneg(1 % P), 1 % P, 1 % P, 0>> ELSE <<1 % P, Fneg(1 % P), 0, 1 % P>>
                     IN Affine(2, l, VNeg(MatVec(l, <<p[7], p[8]>>, 2, 2)))
(* what the kind does to a point, said without matrices *)
Move(k, p, x) ==
  CASE k = KTrans -> VAdd(x, p)
    [] k = KRot   -> MatVec(p, x, 2, 2)
    [] k = KScale -> VMul(x, p)
    [] k = KShear -> VAdd(x, VScale(Part(p, 4, 2), Fmul(p[1], Dot(VSub(x, Part(p, 2, 2)), Part(p, 6, 2)))))
    [] k = KRefl  -> VSub(x, VScale(Part(p, 1, 2), Fmul(Two, Dot(VSub(x, Part(p, 3, 2)), Part(p, 1, 2)))))
    [] k = KIso   -> VAdd(MatVec(Part(p, 1, 4), x, 2, 2), Part(p, 5, 2))
    [] k = KSim   -> VAdd(MatVec(Part(p, 1, 4), VScale(x, p[7]), 2, 2), Part(p, 5, 2))
    [] k = KGen   -> Front(MatVec(p, Append(x, 1 % P), 3, 3))
MoveV(k, p, v) == VSub(Move(k, p, v), Move(k, p, <<0, 0>>))
Init == h = Ident(3) /\ back = Ident(3) /\ pt \in Start /\ vec \in Start /\ kind = KTrans /\ par = <<0, 0>> /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \E k \in 1..8 : \E p \in Pars(k) :
             /\ kind' = k /\ par' = p
             /\ h' = Mul1(2, Hom(2, k, p), h) /\ back' = Mul1(2, back, Rev(k, p))
             /\ pt' = Move(k, p, pt) /\ vec' = MoveV(k, p, vec)
Spec == Init /\ [][Next]_vars
LegalPars == Legal(2, kind, par)
(* composing matrices is composing maps *)
Composes == [][IsImageP(pt', Hom(2, kind', par'), pt, 2) /\ vec' = ImageV(Hom(2, kind', par'), vec, 2)]_vars
Pipeline == (\E x \in Start : IsImageP(pt, h, x, 2)) /\ (\E x \in Start : vec = ImageV(h, x, 2))
Undone == Mul1(2, back, h) = Ident(3) /\ Mul1(2, h, back) = Ident(3) /\ ~Singular(h, 2)
(* points translate, vectors do not *)
VectorLaws == /\ (kind = KTrans => MoveV(kind, par, vec) = vec)
              /\ VSub(Move(kind, par, VAdd(pt, vec)), Move(kind, par, pt)) = MoveV(kind, par, vec)
SelfInverse == kind = KRefl => Mul1(2, Hom(2, kind, par), Hom(2, kind, par)) = Ident(3)
(* lengths: rigid motions keep them, similarities multiply them *)
Lengths == LET w == MoveV(kind, par, vec) IN
           /\ (kind \in {KTrans, KRot, KRefl, KIso} => NormSq(w) = NormSq(vec))
           /\ (kind = KSim => NormSq(w) = Fmul(Fsq(par[7]), NormSq(vec)))
           /\ (kind \in {KRot, KIso, KTrans, KShear} => Det(Hom(2, kind, par), 3) = 1 % P)
           /\ (kind = KRefl => Det(Hom(2, kind, par), 3) = Fneg(1 % P))
(* similarity = translate o rotate o scale; isometry = similarity of scale 1 *)
Factors == /\ (kind = KSim => Hom(2, KSim, par) = Mul1(2, Hom(2, KTrans, Part(par, 5, 2)), Mul1(2, Hom(2, KRot, Part(par, 1, 4)), Hom(2, KScale, <<par[7], par[7]>>))))
           /\ (kind = KIso => Hom(2, KIso, par) = Hom(2, KSim, par \o <<1 % P>>))
(* fixed points *)
Fixed == /\ (kind = KShear => Move(kind, par, Part(par, 2, 2)) = Part(par, 2, 2))
         /\ (kind = KRefl => Move(kind, par, Part(par, 3, 2)) = Part(par, 3, 2) /\ MoveV(kind, par, Part(par, 1, 2)) = VNeg(Part(par, 1, 2)))
(* each query has one answer *)
Determined == steps = 1 => \A o \in {"actp", "actv", "invp", "invv"} :
              Cardinality({r \in V2 : XformPost(o, <<2, kind>>, <<par, pt>>, r)}) = 1
=============================================================================
