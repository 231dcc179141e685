------------------------------- MODULE MC_Rot ------------------------------
(* Laws of the rotation specification over a small field.  State: an axis,   *)
(* the attitude reached by turning about it, and the total angle turned.      *)
EXTENDS Rot, FiniteSets
VARIABLES u, att, ang, last, steps
CONSTANT Depth
vars == <<u, att, ang, last, steps>>
V3 == {<<x, y, z>> : x \in F, y \in F, z \in F}
Units == {v \in V3 : NormSq(v) = 1 % P}
Angles == {x \in F \X F : UnitPair(x)}
Plus(x, y) == <<Fsub(Fmul(x[1], y[1]), Fmul(x[2], y[2])), Fadd(Fmul(x[1], y[2]), Fmul(x[2], y[1]))>>
Minus(x) == <<x[1], Fneg(x[2])>>
NoTurn == <<1 % P, 0>>
AR(v, x) == AxisRot(v, x[1], x[2])
Probe == {E3(1), E3(2), <<1 % P, Two, 1 % P>>}
Init == u \in Units /\ att = Ident(3) /\ ang = NoTurn /\ last = NoTurn /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1 /\ u' = u
        /\ \E x \in Angles : /\ last' = x /\ ang' = Plus(ang, x)
                             /\ att' = MM3(AR(u, x), att)
Spec == Init /\ [][Next]_vars
(* turning about one axis adds the angles *)
Additive == att = AR(u, ang)
Rigid == IsRotation(att, 3)
FixesAxis == MatVec(att, u, 3, 3) = u
Inverts == AR(u, Minus(ang)) = Transpose(att, 3, 3) /\ AR(VNeg(u), Minus(ang)) = att
(* <<ang, u>> can be read off up to simultaneous negation *)
Readable == LET t == Fsub(Trace0(att, 3), 1 % P) IN t = Fmul(Two, ang[1])
            /\ \A v \in Probe : VSub(MatVec(att, v, 3, 3), MatVec(Transpose(att, 3, 3), v, 3, 3)) = VScale(Cross(u, v), Fmul(Two, ang[2]))
(* the quaternion with half the angle is the same rotation *)
HalfAngle == LET q == <<ang[1]>> \o VScale(u, ang[2]) IN NRot(QProds(q)) = AR(u, Plus(ang, ang)) /\ NormSq(q) = 1 % P
(* conjugation carries the axis along *)
Conjugates == MM3(MM3(att, AR(E3(1), last)), Transpose(att, 3, 3)) = AR(MatVec(att, E3(1), 3, 3), last)
Plane == LET m == Rot2(ang[1], ang[2]) IN
         /\ IsRotation(m, 2)
         /\ \A x \in Angles : MatMul(m, Rot2(x[1], x[2]), 2, 2, 2) = Rot2(Plus(ang, x)[1], Plus(ang, x)[2])
         /\ \A k \in 1..3 : LET a3 == AR(E3(3), ang) IN At(a3, 3, 1, 1) = m[1] /\ At(a3, 3, 2, 1) = m[2]
(* Euler angles: the product in the documented order, its inverse, and the    *)
(* degenerate case where only the sum of two angles is determined             *)
Euler == \A y \in Angles :
         LET e == EulerRot(ang, y, last) IN
         /\ IsRotation(e, 3)
         /\ Transpose(e, 3, 3) = MM3(AR(E3(3), Minus(last)), MM3(AR(E3(2), Minus(y)), AR(E3(1), Minus(ang))))
         /\ At(e, 3, 1, 3) = y[2]
         /\ (y = <<0, 1 % P>> => e = EulerRot(Plus(ang, last), y, NoTurn))
(* viewing frames are determined by direction and up *)
Turns == IsTurn3(att, E3(1), 1 % P, MatVec(att, E3(1), 3, 3), 1 % P) => MatVec(att, Cross(E3(1), MatVec(att, E3(1), 3, 3)), 3, 3) = Cross(E3(1), MatVec(att, E3(1), 3, 3))
Looks == /\ IsLook(Transpose(att, 3, 3), MatVec(att, E3(3), 3, 3), 1 % P, MatVec(att, E3(2), 3, 3), 1 % P, 1)
         /\ IsLook(Transpose(att, 3, 3), VNeg(MatVec(att, E3(3), 3, 3)), 1 % P, MatVec(att, E3(2), 3, 3), 1 % P, -1)
         /\ \A e \in Probe : LET m == Transpose(att, 3, 3) n == Mk(4, 4, LAMBDA i, j : IF i < 4 /\ j < 4 THEN At(m, 3, i, j) ELSE IF i < 4 THEN Fneg(MatVec(m, e, 3, 3)[i]) ELSE IF j < 4 THEN 0 ELSE 1 % P)
              w == Mk(4, 4, LAMBDA i, j : IF i < 4 /\ j < 4 THEN At(att, 3, i, j) ELSE IF i < 4 THEN e[i] ELSE IF j < 4 THEN 0 ELSE 1 % P)
              d == MatVec(att, E3(3), 3, 3)  up == MatVec(att, E3(2), 3, 3) IN
            /\ IsLookAff(n, e, d, 1 % P, up, 1 % P, 1) /\ IsLookAffInv(w, e, d, 1 % P, up, 1 % P, 1)
            /\ MatMul(n, w, 4, 4, 4) = Ident(4)
=============================================================================
