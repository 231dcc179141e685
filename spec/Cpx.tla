-------------------------------- MODULE Cpx --------------------------------
(* Complex numbers <<re, im>> and their elementary functions.  Points where  *)
(* the latter are observed are e^(ln rho + i theta) with rho and (c, s) =    *)
(* (cos theta, sin theta) rational, so both sides of every identity are.     *)
EXTENDS Vec

COne == <<1 % P, 0>>
CI == <<0, 1 % P>>
CMul(z, w) == << Fsub(Fmul(z[1], w[1]), Fmul(z[2], w[2])), Fadd(Fmul(z[1], w[2]), Fmul(z[2], w[1])) >>
CConj(z) == <<z[1], Fneg(z[2])>>
CNormSq(z) == Fadd(Fsq(z[1]), Fsq(z[2]))
RECURSIVE CPow(_, _)
CPow(z, n) == IF n = 0 THEN COne
              ELSE LET h == CPow(z, n \div 2) IN IF n % 2 = 0 THEN CMul(h, h) ELSE CMul(z, CMul(h, h))
(* r = z / w *)
IsQuot(r, z, w) == Len(r) = 2 /\ IsScalars(r) /\ CMul(r, w) = z
(* r = z^n, n any integer *)
IsPow(r, z, n) == IF n >= 0 THEN r = CPow(z, n) ELSE IsQuot(r, COne, CPow(z, -n))

(* p = <<rho, c, s>>: the number rho (c + i s), and its inverse given 1/rho *)
Polar(p) == <<Fmul(p[1], p[2]), Fmul(p[1], p[3])>>
PolarInv(p) == LET q == Finv(p[1]) IN <<Fmul(q, p[2]), Fneg(Fmul(q, p[3]))>>
OnCircle(p) == Fadd(Fsq(p[2]), Fsq(p[3])) = 1 % P
(* with E = e^w: 2 cosh w and 2 sinh w *)
Cosh2(p) == VAdd(Polar(p), PolarInv(p))
Sinh2(p) == VSub(Polar(p), PolarInv(p))
(* e^(iw) for w = theta + i ln rho *)
Swap(p) == <<Finv(p[1]), p[2], p[3]>>
(* for Re w = theta, Im w = ln rho: 2 cos w, 2i sin w *)
Cos2(p) == Cosh2(Swap(p))
ISin2(p) == Sinh2(Swap(p))
Dbl(z) == VScale(z, Two)
Good(r, n) == Len(r) = n /\ IsScalars(SubSeq(r, 1, IF n > 4 THEN 4 ELSE n))
Obs(r) == SubSeq(r, 1, 3)     \* observed <<rho, c, s>> of a result
ObsOk(r) == Len(r) = 4 /\ IsScalars(r) /\ r[1] # 0 /\ r[4] = 1 /\ OnCircle(Obs(r))

CpxPost(o, d, a, r) ==
  CASE o = "add"    -> r = VAdd(a[1], a[2])
    [] o = "sub"    -> r = VSub(a[1], a[2])
    [] o = "neg"    -> r = VNeg(a[1])
    [] o = "mul"    -> r = CMul(a[1], a[2])
    [] o = "div"    -> IsQuot(r, a[1], a[2])
    [] o = "sadd"   -> r = VAdd(a[1], <<a[2][1], 0>>)
    [] o = "ssub"   -> r = VSub(a[1], <<a[2][1], 0>>)
    [] o = "smul"   -> r = VScale(a[1], a[2][1])
    [] o = "sdiv"   -> IsQuot(r, a[1], <<a[2][1], 0>>)
    [] o = "ladd"   -> r = VAdd(<<a[1][1], 0>>, a[2])
    [] o = "lsub"   -> r = VSub(<<a[1][1], 0>>, a[2])
    [] o = "lmul"   -> r = VScale(a[2], a[1][1])
    [] o = "ldiv"   -> IsQuot(r, <<a[1][1], 0>>, a[2])
    [] o = "remi"   -> r = [i \in 1..2 |-> TRem(a[1][i], a[2][1])]
    [] o = "conj"   -> r = CConj(a[1])
    [] o = "conjlaw" -> r = <<CNormSq(a[1]), 0>>
    [] o = "normsq" -> r = <<CNormSq(a[1])>>
    [] o = "norm"   -> r = <<CNormSq(a[1]), IF a[1] = <<0, 0>> THEN 0 ELSE 1>>
    [] o = "l1"     -> r = <<Abs(a[1][1]) + Abs(a[1][2])>>
    [] o = "pow"    -> IF d[1] < 0 /\ a[1] = <<0, 0>> THEN r = <<-2, -2>> ELSE IsPow(r, a[1], d[1])
    (* the e-th power of the k-th of the m-th roots of unity, e = +-(hi 2^15 + lo) *)
    [] o = "rootpow" -> LET m == a[1][1]
                            e == a[1][3] * (((a[1][4] % m) * (32768 % m) + a[1][5]) % m)
                        IN  r = <<(a[1][2] * e) % m, 1>>
    [] o = "inv"    -> IF a[1] = <<0, 0>> THEN r = <<>> ELSE IsQuot(r, COne, a[1])
    [] o = "invp"   -> IF a[1] = <<0, 0>> THEN r = <<-9>> ELSE IsQuot(r, COne, a[1])
    [] o = "canInv" -> r = B(a[1] # <<0, 0>>)
    [] o = "re"     -> r = <<a[1][1]>>
    [] o = "im"     -> r = <<a[1][2]>>
    [] o = "parts"  -> r = a[1]
    [] o = "ofre"   -> r = <<a[1][1], 0>>
    [] o = "ofim"   -> r = <<0, a[1][1]>>
    [] o = "zero"   -> r = <<0, 0>>
    [] o = "one"    -> r = COne
    [] o = "i"      -> r = CI
    [] o = "isq"    -> r = VNeg(COne)
    [] o = "isreal" -> r = B(a[1][2] = 0)
    [] o = "isimag" -> r = B(a[1][1] = 0)
    [] o = "iszero" -> r = B(a[1] = <<0, 0>>)
    [] o = "isone"  -> r = B(a[1] = COne)
    [] o = "distr"  -> r = CMul(a[1], VAdd(a[2], a[3]))
    [] o = "assoc"  -> r = CMul(CMul(a[1], a[2]), a[3])
    (* classification of parts: 0 finite, 1 infinite, 2 NaN *)
    [] o = "isfin"  -> r = B(a[1][1] = 0 /\ a[1][2] = 0)
    [] o = "isnan"  -> r = B(a[1][1] = 2 \/ a[1][2] = 2)
    [] o = "isinf"  -> r = B(a[1][1] # 2 /\ a[1][2] # 2 /\ (a[1][1] = 1 \/ a[1][2] = 1))
    (* elementary functions; a[1] = <<rho, c, s>> describes the point *)
    [] o = "exp"    -> r = Polar(a[1])
    [] o = "polar"  -> r = Polar(a[1])
    [] o = "cis"    -> r = <<a[1][2], a[1][3]>>
    [] o = "log"    -> r = Append(a[1], 1)
    [] o = "arg"    -> r = <<a[1][2], a[1][3], 1>>
    [] o = "sqrt"   -> Good(r, 3) /\ r[3] = 1 /\ CMul(<<r[1], r[2]>>, <<r[1], r[2]>>) = a[1]
    [] o = "cbrt"   -> Good(r, 3) /\ r[3] = 1 /\ CPow(<<r[1], r[2]>>, 3) = a[1]
    (* the d[1]-th power of the root found, which need not be rational, is the argument *)
    [] o = "rootz"  -> r = a[1] \o <<1>>
    (* a[1] the principal d[2]-th root of the argument: argument^(d[1]/d[2]) *)
    [] o = "powf"   -> IsPow(r, a[1], d[1])
    [] o = "powc"   -> r = Polar(a[1])
    [] o = "pow0"   -> r = COne
    [] o = "cosh"   -> Good(r, 2) /\ Dbl(r) = Cosh2(a[1])
    [] o = "sinh"   -> Good(r, 2) /\ Dbl(r) = Sinh2(a[1])
    [] o = "tanh"   -> Good(r, 2) /\ CMul(r, Cosh2(a[1])) = Sinh2(a[1])
    [] o = "cos"    -> Good(r, 2) /\ Dbl(r) = Cos2(a[1])
    [] o = "sin"    -> Good(r, 2) /\ CMul(CI, Dbl(r)) = ISin2(a[1])
    [] o = "tan"    -> Good(r, 2) /\ CMul(CMul(CI, r), Cos2(a[1])) = ISin2(a[1])
    (* limits of the tangents away from the real (imaginary) axis             *)
    [] o = "tanhfar" -> r = <<Int2F(d[1]), 0>>
    [] o = "tanfar"  -> r = <<0, Int2F(d[1])>>
    (* first order at the origin: f(h z) / h = z for infinitesimal h          *)
    [] o = "lin"    -> r = a[1]
    [] o = "linarg" -> r = <<a[1][2]>>          \* arg(1 + h z) / h, (arg -1 - arg(-1 + h z)) / h
    (* inverse functions: the result, observed through e^Re, cos Im, sin Im   *)
    (* (or e^Im, cos Re, sin Re), must map back to the argument a[1]          *)
    [] o = "acosh"  -> ObsOk(r) /\ Cosh2(Obs(r)) = Dbl(a[1])
    [] o = "asinh"  -> ObsOk(r) /\ Sinh2(Obs(r)) = Dbl(a[1])
    [] o = "atanh"  -> ObsOk(r) /\ Sinh2(Obs(r)) = CMul(a[1], Cosh2(Obs(r)))
    [] o = "acos"   -> ObsOk(r) /\ Cos2(Obs(r)) = Dbl(a[1])
    [] o = "asin"   -> ObsOk(r) /\ ISin2(Obs(r)) = CMul(CI, Dbl(a[1]))
    [] o = "atan"   -> ObsOk(r) /\ ISin2(Obs(r)) = CMul(CMul(CI, a[1]), Cos2(Obs(r)))
=============================================================================
