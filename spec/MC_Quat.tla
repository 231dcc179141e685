------------------------------ MODULE MC_Quat ------------------------------
(* Laws of the quaternion specification over a small field, and that unit    *)
(* quaternions represent rotations.                                           *)
EXTENDS Rot, FiniteSets
VARIABLES p, q, steps
CONSTANT Depth
vars == <<p, q, steps>>
QSet == {<<s, x, y, z>> : s \in F, x \in F, y \in F, z \in F}
V3 == {<<x, y, z>> : x \in F, y \in F, z \in F}
Init == p \in QSet /\ q = QOne /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \/ q = QOne /\ q' \in QSet /\ p' = p
           \/ p' \in {QMul(p, q), VAdd(p, q), QConj(p)} /\ q' = q
Spec == Init /\ [][Next]_vars
Basis == {VUnit(4, k) : k \in 1..4}
AlgebraLaws ==
  /\ QMul(p, QOne) = p /\ QMul(QOne, p) = p
  /\ \A u \in Basis : QMul(QMul(p, q), u) = QMul(p, QMul(q, u)) /\ QMul(u, QMul(p, q)) = QMul(QMul(u, p), q)
  /\ \A u \in Basis : QMul(p, VAdd(q, u)) = VAdd(QMul(p, q), QMul(p, u)) /\ QMul(VAdd(q, u), p) = VAdd(QMul(q, p), QMul(u, p))
  /\ QMul(VUnit(4, 2), VUnit(4, 3)) = VUnit(4, 4) /\ QMul(VUnit(4, 3), VUnit(4, 4)) = VUnit(4, 2) /\ QMul(VUnit(4, 4), VUnit(4, 2)) = VUnit(4, 3)
ConjNormLaws ==
  /\ QConj(QMul(p, q)) = QMul(QConj(q), QConj(p)) /\ QMul(p, QConj(p)) = VScale(QOne, NormSq(p))
  /\ NormSq(QMul(p, q)) = Fmul(NormSq(p), NormSq(q))
  /\ Dot(p, q) = QMul(QConj(p), q)[1]
InverseLaws == (steps <= 1 /\ q = QOne) =>
  Cardinality({r \in QSet : IsQInv(r, p)}) = IF NormSq(p) = 0 THEN 0 ELSE 1
DivLaws == (NormSq(q) # 0 /\ steps <= 1) => /\ Cardinality({r \in QSet : QuatPost("divl", <<>>, <<p, q>>, r)}) = 1
                            /\ Cardinality({r \in QSet : QuatPost("divr", <<>>, <<p, q>>, r)}) = 1
RotationLaws ==
  LET m == NRot(QProds(p)) n == NRot(QProds(q)) IN
  /\ \A v \in {E3(1), E3(2), E3(3), <<1, Two, 1>>} : MatVec(m, v, 3, 3) = NTurn(p, v)
  /\ MM3(m, n) = NRot(QProds(QMul(p, q)))
  /\ MM3(m, Transpose(m, 3, 3)) = VScale(Ident(3), Fsq(NormSq(p)))
  /\ Det(m, 3) = Fpow(NormSq(p), 3)
  /\ NRot(QProds(VNeg(p))) = m /\ NRot(QProds(QConj(p))) = Transpose(m, 3, 3)
  /\ MatVec(m, QVec(p), 3, 3) = VScale(QVec(p), NormSq(p))
(* products determine the quaternion up to sign *)
ProdLaws == QProds(p) = QProds(q) => p \in {q, VNeg(q)}
PowLaws == \A k \in 0..3 : QPow(p, k + 1) = QMul(p, QPow(p, k)) /\ QMul(QPow(p, k), p) = QMul(p, QPow(p, k))
=============================================================================
