------------------------------- MODULE MC_Apx ------------------------------
(* Laws of approximate comparison on small integers.                         *)
EXTENDS Apx
VARIABLES x, y, t, q
CONSTANT Hi
vars == <<x, y, t, q>>
Z == (0 - Hi)..Hi
Qs == {0, 8, 32, 64}
Init == x = 0 /\ y = 0 /\ t = 0 /\ q = 0
Next == (t = 0 /\ q = 0 /\ x = 0 /\ y = 0 /\ x' \in Z /\ t' \in 0..3 /\ q' \in Qs /\ y' = y) \/ (y = 0 /\ y' \in Z /\ UNCHANGED <<x, t, q>>)
Spec == Init /\ [][Next]_vars
Reflexive == CloseAbs(x, x, t) /\ CloseRel(x, x, t, q) /\ CloseUlps(0, 0, t)
SymmetricLaw == CloseAbs(x, y, t) = CloseAbs(y, x, t) /\ CloseRel(x, y, t, q) = CloseRel(y, x, t, q)
Monotone == /\ (CloseAbs(x, y, t) => CloseAbs(x, y, t + 1)) /\ (CloseRel(x, y, t, q) => CloseRel(x, y, t + 1, q) /\ CloseRel(x, y, t, q + 8))
            /\ \A k \in -1..4 : CloseUlps(k, 0, t) => CloseUlps(k, 0, t + 1)
Exact == (CloseAbs(x, y, 0) <=> x = y) /\ (CloseRel(x, y, 0, 0) <=> x = y)
RelWeaker == CloseAbs(x, y, t) => CloseRel(x, y, t, q)
Translation == \A k \in {-5, 3} : CloseAbs(x + k, y + k, t) = CloseAbs(x, y, t)
(* relative closeness does not depend on the scale *)
Scaling == \A k \in {2, -7} : CloseRel(k * x, k * y, 0, q) = CloseRel(x, y, 0, q)
(* comparison of several components is the conjunction *)
Conjunctive == ApxPost("abs", <<>>, <<<<x, y>>, <<y, x>>, <<t, t>>>>, Verdict(CloseAbs(x, y, t)))
               /\ ApxPost("rel", <<>>, <<<<x, 0>>, <<y, Hi + 9>>, <<t, 3>>, <<q, q>>>>, Verdict(CloseRel(x, y, t, q) /\ q = 64))
(* the reported difference is within the reported tolerance iff the values   *)
(* are close                                                                 *)
Reported == LET e == Abs(x - y) IN
               /\ ApxPost("rdiff", <<0>>, <<<<x, y>>, <<y, x>>>>, <<e, e>>)
               /\ (e <= t <=> CloseAbs(x, y, t))
               /\ \A m \in 0..(64 * Hi) : ApxPost("rrel", <<0>>, <<<<x>>, <<y>>, <<q>>>>, <<m>>) => ((e <= t \/ e * 64 <= m) <=> CloseRel(x, y, t, q))
               /\ SameBag(<<x, y, t>>, <<t, x, y>>) /\ (SameBag(<<x, x, y>>, <<x, y, y>>) <=> x = y)
=============================================================================
