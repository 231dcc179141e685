-------------------------------- MODULE Ang --------------------------------
(* Typed angles.  A measure is an integer number of eighths of a degree      *)
(* (a full turn is 2880), whatever the unit it is held in; at the angles      *)
(* with rational sine and cosine an angle is <<cos, sin>>.                    *)
EXTENDS Vec

Turn == 2880
Wrap(x) == x % Turn
WrapSigned(x) == ((x + Turn \div 2) % Turn) - Turn \div 2
Opposite(x) == Wrap(x + Turn \div 2)
(* halfway from x to y; x + y even *)
Bisect(x, y) == Wrap((x + y) \div 2)
UnitCS(c, s) == Fadd(Fsq(c), Fsq(s)) = 1 % P
(* q = x/y *)
IsRatio(r, x, y) == Len(r) = 1 /\ IsScalars(r) /\ Fmul(r[1], y) = x

AngPost(o, d, a, r) ==
  CASE o = "norm"  -> r = <<Wrap(a[1][1])>>
    [] o = "norms" -> r = <<WrapSigned(a[1][1])>>
    [] o = "opp"   -> r = <<Opposite(a[1][1])>>
    [] o = "bis"   -> r = <<Bisect(a[1][1], a[2][1])>>
    [] o = "conv"  -> r = <<a[1][1]>>
    [] o = "frac"  -> r = <<Turn \div d[1]>>
    [] o = "zero"  -> r = <<0>>
    [] o = "iszero" -> r = B(a[1][1] = 0)
    [] o = "isfinite" -> r = B(a[1][1] < 1900000000 /\ a[1][1] > -1900000000)
    [] o = "lt"    -> r = B(a[1][1] < a[2][1])
    [] o = "le"    -> r = B(a[1][1] <= a[2][1])
    [] o = "eq"    -> r = B(a[1][1] = a[2][1])
    (* the normalised angle lies in the half-open range and is congruent *)
    [] o = "range" -> r = <<1, 1, 1>>
    [] o = "sin"   -> r = <<a[1][2]>>
    [] o = "cos"   -> r = <<a[1][1]>>
    [] o = "sincos" -> r = <<a[1][2], a[1][1]>>
    [] o = "tan"   -> IsRatio(r, a[1][2], a[1][1])
    [] o = "cot"   -> IsRatio(r, a[1][1], a[1][2])
    [] o = "sec"   -> IsRatio(r, 1 % P, a[1][1])
    [] o = "csc"   -> IsRatio(r, 1 % P, a[1][2])
    (* principal values: the driver chose a[1] in the principal range; the    *)
    (* last component says whether the result lies in it                      *)
    [] o = "principal" -> UnitCS(a[1][1], a[1][2]) /\ r = <<a[1][1], a[1][2], 1>>
=============================================================================
