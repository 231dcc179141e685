------------------------------- MODULE MC_Cpx ------------------------------
(* Laws of the complex specification over F_P[i] with P = 3 mod 4 (a field), *)
(* and of the points at which elementary functions are observed.              *)
EXTENDS Cpx, FiniteSets
VARIABLES z, w, pt
vars == <<z, w, pt>>
C == F \X F
Circle == {<<c, s>> \in F \X F : Fadd(Fsq(c), Fsq(s)) = 1 % P}
Pts == {<<rho, cs[1], cs[2]>> : rho \in F \ {0}, cs \in Circle}
CSet == {<<x, y>> : x \in F, y \in F}
Base == <<1 % P, 1 % P, 0>>
Init == z \in CSet /\ w = COne /\ pt = Base
(* a client picks another operand or point, or overwrites z with a result *)
Next == \/ w = COne /\ pt = Base /\ w' \in CSet /\ UNCHANGED <<z, pt>>
        \/ z = COne /\ w = COne /\ pt' \in Pts /\ UNCHANGED <<z, w>>
        \/ pt = Base /\ \E r \in {CMul(z, w), VAdd(z, w), CConj(z)} : z' = r /\ UNCHANGED <<w, pt>>
Spec == Init /\ [][Next]_vars
FieldLaws == /\ CMul(z, w) = CMul(w, z) /\ CMul(z, COne) = z /\ CMul(CI, CI) = VNeg(COne)
             /\ \A u \in {COne, CI, <<Two, 1>>} : /\ CMul(CMul(z, w), u) = CMul(z, CMul(w, u))
                                                  /\ CMul(z, VAdd(w, u)) = VAdd(CMul(z, w), CMul(z, u))
             /\ (w # <<0, 0>> => Cardinality({r \in CSet : CpxPost("div", <<>>, <<z, w>>, r)}) = 1)
             /\ (CMul(z, w) = <<0, 0>> => z = <<0, 0>> \/ w = <<0, 0>>)
ConjLaws == /\ CConj(CMul(z, w)) = CMul(CConj(z), CConj(w)) /\ CConj(VAdd(z, w)) = VAdd(CConj(z), CConj(w)) /\ CConj(CConj(z)) = z
            /\ CMul(z, CConj(z)) = <<CNormSq(z), 0>> /\ CNormSq(CMul(z, w)) = Fmul(CNormSq(z), CNormSq(w))
PowLaws == /\ \A n \in 0..6 : /\ CPow(z, n + 1) = CMul(z, CPow(z, n)) /\ CPow(CMul(z, w), n) = CMul(CPow(z, n), CPow(w, n))
                              /\ CPow(CPow(z, 2), n) = CPow(z, 2 * n)
           /\ (z # <<0, 0>> => \A n \in 1..4 : \A r \in CSet : IsPow(r, z, -n) => CMul(r, CPow(z, n)) = COne)
           /\ (z # <<0, 0>> => \A n \in {-2, -1, 0, 1, 2} : Cardinality({r \in CSet : IsPow(r, z, n)}) = 1)
(* e^(a+b): product of the points is the point of the sum *)
Turnp(p, q) == <<Fmul(p[1], q[1]), Fsub(Fmul(p[2], q[2]), Fmul(p[3], q[3])), Fadd(Fmul(p[2], q[3]), Fmul(p[3], q[2]))>>
Negp(p) == <<Finv(p[1]), p[2], Fneg(p[3])>>
ExpLaws == /\ OnCircle(pt) /\ CMul(Polar(pt), PolarInv(pt)) = COne
           /\ \A q \in {<<1, 1, 0>>, <<1, 0, 1>>, <<Two, 1, 0>>} : Polar(Turnp(pt, q)) = CMul(Polar(pt), Polar(q))
           /\ Polar(Negp(pt)) = PolarInv(pt)
Sq(x) == CMul(x, x)
TrigLaws == /\ VSub(Sq(Cosh2(pt)), Sq(Sinh2(pt))) = <<4 % P, 0>>
            /\ VSub(Sq(Cos2(pt)), Sq(ISin2(pt))) = <<4 % P, 0>>
            /\ Cosh2(Negp(pt)) = Cosh2(pt) /\ Sinh2(Negp(pt)) = VNeg(Sinh2(pt))
            /\ VAdd(Cosh2(pt), Sinh2(pt)) = Dbl(Polar(pt))
            (* double argument *)
            /\ Dbl(Cosh2(Turnp(pt, pt))) = VAdd(Sq(Cosh2(pt)), Sq(Sinh2(pt)))
            /\ Sinh2(Turnp(pt, pt)) = CMul(Sinh2(pt), Cosh2(pt))
(* dual numbers <<x, x'>>, h^2 = 0: exp(h z) = 1 + h z, so sinh, tanh, the    *)
(* square root of 1 + 2 h z (and their inverses) are tangent to the identity *)
DMul(x, y) == <<CMul(x[1], y[1]), VAdd(CMul(x[1], y[2]), CMul(x[2], y[1]))>>
TangentLaws == LET E == <<COne, z>>  Ei == <<COne, VNeg(z)>>  S2 == <<VSub(E[1], Ei[1]), VSub(E[2], Ei[2])>>
                   C2 == <<VAdd(E[1], Ei[1]), VAdd(E[2], Ei[2])>>
               IN  /\ DMul(E, Ei) = <<COne, <<0, 0>>>> /\ S2 = <<<<0, 0>>, Dbl(z)>>
                   /\ DMul(<<<<0, 0>>, z>>, C2) = S2
                   /\ DMul(E, E) = <<COne, Dbl(z)>>
                   /\ DMul(E, <<COne, w>>) = <<COne, VAdd(z, w)>>
(* squares have exactly the two roots r and -r; cube roots multiply by roots of one *)
RootLaws == /\ \A r, s \in {x \in CSet : Sq(x) = z} : r = s \/ r = VNeg(s)
            /\ \A r \in CSet : Sq(r) = z => CpxPost("sqrt", <<>>, <<z>>, Append(r, 1))
            /\ ~ \E r \in CSet : CpxPost("sqrt", <<>>, <<z>>, Append(r, 0))
=============================================================================
