------------------------------ MODULE MC_Spc -------------------------------
(* Laws of the limits and of the predicates.  A walk applies functions to    *)
(* their own limits as long as these are again arguments whose class is      *)
(* determined.                                                               *)
EXTENDS Spc, FiniteSets
CONSTANT Hi
VARIABLES x, y, g, v, w
vars == <<x, y, g, v, w>>
Vals == (0..Hi) \cup {-1, PInf, NInf, NotN, Tiny}
Quad == {<<c, s>> : c \in {-1, 1}, s \in {-1, 1}}
Init == /\ x \in Classes /\ y \in Classes /\ (~SpcFin(x) \/ ~SpcFin(y))
        /\ \E p \in Quad, r \in Quad : g = <<p[1], p[2], r[1], r[2]>>
        /\ v = <<0>> /\ w \in {<<a, b, c, d>> : a \in {0, 1, NotN}, b \in Vals, c \in {0, PInf}, d \in {0, 1, Tiny}}
ClassOf(r) == IF r = Nan THEN 3 ELSE IF r = Oo THEN 2 ELSE IF r = -Oo THEN -2 ELSE Sgn(r)
Next == \E o \in SpFns : \E r \in SpLimit(o, x, y, g) :
           /\ (r[1] \in {Nan, Oo, -Oo} \/ r[2] \in {Nan, Oo, -Oo})
           /\ x' = ClassOf(r[1]) /\ y' = ClassOf(r[2])
           /\ UNCHANGED <<g, v, w>>
Spec == Init /\ [][Next]_vars
L(o, a, b, h) == SpLimit(o, a, b, h)
Conj(S) == {<<r[1], NegR(r[2])>> : r \in S}
Minus(S) == {<<NegR(r[1]), NegR(r[2])>> : r \in S}
ConjG == <<g[1], g[2], g[3], -g[4]>>
NegG == <<g[1], -g[2], g[3], -g[4]>>
Defined == \A o \in SpFns : L(o, x, y, g) # {} /\ L(o, x, y, g) \subseteq ({-4, -3, -2, -1, 0, 1, 2, 3, 4, 10, -10, Oo, -Oo, Nan} \X {-4, -3, -2, -1, 0, 1, 2, 3, 4, 10, -10, Oo, -Oo, Nan})
(* f(conj z) = conj f(z) *)
ConjugateSymmetric == \A o \in SpFns : L(o, x, NegC(y), ConjG) = Conj(L(o, x, y, g))
Odd == \A o \in {"sinh", "tanh", "asinh", "atanh", "sin", "tan", "asin", "atan"} : L(o, NegC(x), NegC(y), NegG) = Minus(L(o, x, y, g))
Even == \A o \in {"cosh", "cos"} : L(o, NegC(x), NegC(y), NegG) = L(o, x, y, g)
(* acos z + asin z = pi/2, acosh z = +-i acos z, when no component is NaN *)
Complementary == \A r \in L("acos", x, y, g) : r[1] # Nan /\ r[2] # Nan =>
                   \E s \in L("asin", x, y, g) : s[2] = NegR(r[2]) /\ (s[1] # Nan => r[1] + s[1] = 2)
Turns == \A r \in L("acos", x, y, g) : r[1] # Nan /\ r[2] # Nan => \E s \in L("acosh", x, y, g) : s[1] = Abs(r[2]) /\ Abs(s[2]) = r[1]
(* without a NaN in the argument, limits of the inverses have no NaN *)
Total == x # 3 /\ y # 3 => \A o \in {"asinh", "acosh", "acos", "atanh", "asin", "atan"} : \A r \in L(o, x, y, g) : r[1] # Nan /\ r[2] # Nan
(* NaN never disappears without trace, except where the limit does not depend on it *)
Traced == x = 3 /\ y = 3 => \A o \in SpFns : L(o, x, y, g) = NN
(* principal ranges *)
Ranges == /\ \A r \in L("acosh", x, y, g) : r[1] \in {Nan, Oo} /\ (r[2] \in {Nan} \cup (-4..4))
          /\ \A o \in {"asinh", "atanh"} : \A r \in L(o, x, y, g) : r[2] \in {Nan} \cup (-2..2)
          /\ \A r \in L("acos", x, y, g) : r[1] \in {Nan} \cup (0..4)

(* ---- predicates ---- *)
T(o, d, a) == SpcPost(o, "", d, a, <<1>>)
F1(o, d, a) == SpcPost(o, "", d, a, <<0>>)
Two4 == {u \in {w, <<w[2], w[1], w[3], w[4]>>, <<w[1], w[2], w[3], 0>>, <<1, 0, 0, 1>>, <<0, 0, 0, 0>>} : TRUE}
Decided == \A o \in {"finite", "nan", "zero", "one"} : T(o, <<>>, <<w>>) # F1(o, <<>>, <<w>>)
EqNe == \A u \in Two4 : T("eq", <<>>, <<w, u>>) # T("ne", <<>>, <<w, u>>) /\ (T("eq", <<>>, <<w, u>>) = T("eq", <<>>, <<u, w>>))
Reflexive == T("eq", <<>>, <<w, w>>) <=> ~T("nan", <<>>, <<w>>)
Leibniz == \A u \in Two4 : T("eq", <<>>, <<w, u>>) => \A o \in {"finite", "nan", "zero", "one", "infinite"} : T(o, <<>>, <<w>>) = T(o, <<>>, <<u>>)
Structure == /\ T("identity", <<2>>, <<w>>) => T("diagonal", <<2>>, <<w>>) /\ ~T("zero", <<>>, <<w>>)
             /\ T("diagonal", <<2>>, <<w>>) => T("symmetric", <<2>>, <<w>>)
             /\ T("zero", <<>>, <<w>>) => T("finite", <<>>, <<w>>) /\ T("diagonal", <<2>>, <<w>>)
             /\ T("nan", <<>>, <<w>>) => ~T("finite", <<>>, <<w>>)
=============================================================================
