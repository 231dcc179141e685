-------------------------------- MODULE Sfn --------------------------------
(* The scalar interface: what the functions every other part of the library  *)
(* is written in mean.  Transcendental functions are specified where their   *)
(* values are rational: exponentials at multiples of the logarithm of a      *)
(* rational b, circular functions at the angles of rational points of the    *)
(* unit circle.                                                              *)
EXTENDS Fld

Fpw(b, k) == IF k >= 0 THEN Fpow(b, k) ELSE Finv(Fpow(b, -k))
(* rounding of n/8; results in units (fract: in eighths) *)
Floor8(n) == n \div 8
Ceil8(n) == -((-n) \div 8)
Trunc8(n) == IF n >= 0 THEN n \div 8 ELSE -((-n) \div 8)
Fract8(n) == n - 8 * Trunc8(n)
Round8(n) == IF n >= 0 THEN (n + 4) \div 8 ELSE -((4 - n) \div 8)

(* digits of the constants: <<7 decimals as an integer, the next 7>> *)
ConstDigits ==
  [pi |-> <<31415926, 5358979>>, two_pi |-> <<62831853, 717959>>, frac_pi_2 |-> <<15707963, 2679490>>, frac_pi_3 |-> <<10471975, 5119660>>,
   frac_pi_4 |-> <<7853981, 6339745>>, frac_pi_6 |-> <<5235987, 7559830>>, frac_pi_8 |-> <<3926990, 8169872>>, frac_1_pi |-> <<3183098, 8618379>>,
   frac_2_pi |-> <<6366197, 7236758>>, frac_2_sqrt_pi |-> <<11283791, 6709551>>, e |-> <<27182818, 2845905>>, log2_e |-> <<14426950, 4088896>>,
   log10_e |-> <<4342944, 8190325>>, ln_2 |-> <<6931471, 8055995>>, ln_10 |-> <<23025850, 9299405>>, sqrt_2 |-> <<14142135, 6237310>>, frac_1_sqrt_2 |-> <<7071067, 8118655>>]
(* hi, lo recorded; wide = precision of the type in units of the last digit  *)
NearDigits(r, c, coarse) ==
  IF coarse THEN Abs(r[1] - c[1]) <= 4
  ELSE r[1] = c[1] /\ Abs(r[2] - c[2]) <= 2

(* floating formats: precision and largest exponent *)
Prec(s) == IF s = "f64" THEN 53 ELSE 24
Emax(s) == IF s = "f64" THEN 1023 ELSE 127
(* numbers as <<bits of the odd part, ones in it, exponent, sign>> *)
LargestOf(s, w) == IF s \in {"f64", "f32"} THEN <<Prec(s), Prec(s), Emax(s) - Prec(s) + 1, 1>> ELSE <<w - 1, w - 1, 0, 1>>
SmallestOf(s, w) == IF s \in {"f64", "f32"} THEN <<Prec(s), Prec(s), Emax(s) - Prec(s) + 1, -1>> ELSE <<1, 1, w - 1, -1>>

SfnPost(o, v, s, d, a, r) ==
  LET x == IF Len(a) >= 1 /\ Len(a[1]) >= 1 THEN a[1][1] ELSE 0
      good == IsScalars(r)
      k == IF Len(d) >= 1 THEN d[1] ELSE 0
      bk == Fpw(x, k)
      bm == Fpw(x, -k)
  IN
  CASE o = "floor"  -> r = <<Floor8(k)>>
    [] o = "ceil"   -> r = <<Ceil8(k)>>
    [] o = "trunc"  -> r = <<Trunc8(k)>>
    [] o = "round"  -> r = <<Round8(k)>>
    [] o = "fract"  -> r = <<Fract8(k)>>
    [] o = "muladd" -> r = <<Fadd(Fmul(a[1][1], a[1][2]), a[1][3])>>
    [] o = "recip"  -> good /\ x # 0 /\ Fmul(r[1], x) = 1
    (* roots observed by their power and sign *)
    [] o = "hypot"  -> r = <<Fadd(Fsq(a[1][1]), Fsq(a[1][2])), d[1]>>
    [] o = "sqrt"   -> r = <<x, d[1]>>
    [] o = "cbrt"   -> r = <<x, d[1]>>
    [] o = "pow"    -> good /\ x # 0 /\ r = <<Fpw(x, k)>>
    [] o = "root"   -> r = <<x>>
    [] o = "exp"    -> r = <<bk>>
    [] o = "expm1"  -> r = <<Fsub(bk, 1)>>
    [] o = "log"    -> r = <<Int2F(k)>>
    [] o = "sinh"   -> good /\ Fmul(2, r[1]) = Fsub(bk, bm)
    [] o = "cosh"   -> good /\ Fmul(2, r[1]) = Fadd(bk, bm)
    [] o = "tanh"   -> good /\ Fmul(r[1], Fadd(bk, bm)) = Fsub(bk, bm)
    [] o = "sinhcosh" -> good /\ Fmul(2, r[1]) = Fsub(bk, bm) /\ Fmul(2, r[2]) = Fadd(bk, bm)
    [] o = "abslog" -> r = <<Int2F(Abs(k))>>
    (* a[1] = cos, sin of the angle *)
    [] o = "cos"    -> r = <<a[1][1]>>
    [] o = "sin"    -> r = <<a[1][2]>>
    [] o = "sincos" -> r = <<a[1][2], a[1][1]>>
    [] o = "tan"    -> good /\ a[1][1] # 0 /\ Fmul(r[1], a[1][1]) = a[1][2]
    (* an angle observed by its cosine, its sine, and lying in the principal range *)
    [] o = "angle"  -> r = <<a[1][1], a[1][2], 1>>
    [] o = "const"  -> NearDigits(r, ConstDigits[v], s = "f32")
    [] o = "maxval" -> r = LargestOf(s, k)
    [] o = "minval" -> r = SmallestOf(s, k)
    (* the documented default tolerance of comparisons in units of the last place *)
    [] o = "maxulps" -> r = <<4>>
    [] o = "eps"    -> r = <<1, 1, 1 - Prec(s), 1>>
    [] o = "minpos" -> r = <<1, 1, 1 - Emax(s), 1>>
    (* class of a special value: <<is nan, is infinite, is finite, is normal, is subnormal, is positive, is negative>> *)
    [] o = "class"  -> r = (CASE v = "nan"  -> <<1, 0, 0, 0, 0>> \o SubSeq(r, 6, 7)
                              [] v = "inf"  -> <<0, 1, 0, 0, 0, 1, 0>>
                              [] v = "ninf" -> <<0, 1, 0, 0, 0, 0, 1>>
                              [] v = "zero" -> <<0, 0, 1, 0, 0, 1, 0>>
                              [] v = "nzero" -> <<0, 0, 1, 0, 0, 0, 1>>
                              [] v = "sub"  -> <<0, 0, 1, 0, 1, 1, 0>>
                              [] v = "nsub" -> <<0, 0, 1, 0, 1, 0, 1>>
                              [] v = "norm" -> <<0, 0, 1, 1, 0, 1, 0>>
                              [] v = "nnorm" -> <<0, 0, 1, 1, 0, 0, 1>>)
=============================================================================
