-------------------------------- MODULE Apx --------------------------------
(* Approximate comparison.  Components and absolute tolerances are integers  *)
(* in a common unit, relative tolerances are in 64ths, and a distance in     *)
(* units in the last place is -1 between values of opposite sign.            *)
EXTENDS Fld

CloseAbs(x, y, t) == Abs(x - y) <= t
CloseRel(x, y, t, q) == CloseAbs(x, y, t) \/ Abs(x - y) * 64 <= Max2(Abs(x), Abs(y)) * q
CloseUlps(k, big, u) == big = 1 \/ (k >= 0 /\ k <= u)

(* every comparison is conjunctive over the components: equal, not-equal *)
Verdict(b) == IF b THEN <<1, 0>> ELSE <<0, 1>>

(* what a failed assertion reports is taken component by component; of       *)
(* values with several named parts the order of the parts is open            *)
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, z) == Len(s) = Len(z) /\ \A i \in DOMAIN s : Occ(s, s[i]) = Occ(z, s[i])
Reports(d, r, w) == IF d[1] = 1 THEN SameBag(r, w) ELSE r = w

ApxPost(o, d, a, r) ==
  LET I == 1..Len(a[1]) IN
  CASE o = "eq"   -> r = Verdict(\A i \in I : a[1][i] = 0)
    [] o = "abs"  -> r = Verdict(\A i \in I : CloseAbs(a[1][i], a[2][i], a[3][i]))
    [] o = "rel"  -> r = Verdict(\A i \in I : CloseRel(a[1][i], a[2][i], a[3][i], a[4][i]))
    [] o = "ulps" -> r = Verdict(\A i \in I : CloseUlps(a[1][i], a[2][i], a[3][i]))
    [] o = "rdiff" -> Reports(d, r, [i \in I |-> Abs(a[1][i] - a[2][i])])
    [] o = "rtol"  -> Reports(d, r, a[1])
    [] o = "rrel"  -> Reports(d, r, [i \in I |-> Max2(Abs(a[1][i]), Abs(a[2][i])) * a[3][i]])
=============================================================================
