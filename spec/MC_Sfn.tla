------------------------------ MODULE MC_Sfn -------------------------------
(* Laws of the scalar functions.                                             *)
EXTENDS Sfn, FiniteSets
CONSTANT Reach
VARIABLES n, b, j, t
vars == <<n, b, j, t>>
Circle == {p \in F \X F : Fadd(Fsq(p[1]), Fsq(p[2])) = 1}
Init == n = -Reach /\ b \in F \ {0} /\ j \in -3..3 /\ t \in Circle
Next == n < Reach /\ n' = n + 1 /\ UNCHANGED <<b, j, t>>
Spec == Init /\ [][Next]_vars
OK(o, d, a, r) == SfnPost(o, "", "f64", d, a, r)
Rounding == /\ 8 * Floor8(n) <= n /\ n < 8 * Floor8(n) + 8
            /\ 8 * Ceil8(n) >= n /\ n > 8 * Ceil8(n) - 8
            /\ Ceil8(n) = -Floor8(-n) /\ Trunc8(-n) = -Trunc8(n) /\ Round8(-n) = -Round8(n)
            /\ Abs(8 * Round8(n) - n) <= 4 /\ (Abs(8 * Round8(n) - n) = 4 => Abs(8 * Round8(n)) > Abs(n))
            /\ 8 * Trunc8(n) + Fract8(n) = n /\ Abs(Fract8(n)) < 8 /\ Abs(8 * Trunc8(n)) <= Abs(n)
            /\ (n % 8 = 0 => Floor8(n) = Ceil8(n) /\ Round8(n) = n \div 8)
(* exp turns sums into products *)
ExpHom == n = -Reach => \A k \in -3..3 : Fpw(b, j + k) = Fmul(Fpw(b, j), Fpw(b, k))
ExpInv == Fmul(Fpw(b, j), Fpw(b, -j)) = 1
Hyp == P > 2 /\ n = -Reach => \A s \in F, c \in F : OK("sinh", <<j>>, <<<<b>>>>, <<s>>) /\ OK("cosh", <<j>>, <<<<b>>>>, <<c>>)
          => /\ Fsub(Fsq(c), Fsq(s)) = 1
             /\ OK("sinhcosh", <<j>>, <<<<b>>>>, <<s, c>>)
             /\ OK("sinh", <<-j>>, <<<<b>>>>, <<Fneg(s)>>) /\ OK("cosh", <<-j>>, <<<<b>>>>, <<c>>)
             /\ \A h \in F : OK("tanh", <<j>>, <<<<b>>>>, <<h>>) => Fmul(h, c) = s
             /\ Fadd(s, c) = Fpw(b, j)
Trig == n = -Reach =>
        /\ OK("sincos", <<>>, <<t>>, <<t[2], t[1]>>)
        /\ \A h \in F : t[1] # 0 /\ OK("tan", <<>>, <<t>>, <<h>>) => Fmul(Fadd(1, Fsq(h)), Fsq(t[1])) = 1
(* every function has one value *)
Determined == n = -Reach => \A o \in {"exp", "expm1", "sinh", "cosh", "pow"} : Cardinality({x \in F : OK(o, <<j>>, <<<<b>>>>, <<x>>)}) = 1
Const == n = -Reach =>
         /\ \A q \in {<<"two_pi", "pi", 2>>, <<"pi", "frac_pi_2", 2>>, <<"pi", "frac_pi_3", 3>>, <<"pi", "frac_pi_4", 4>>, <<"frac_pi_2", "frac_pi_4", 2>>, <<"frac_pi_3", "frac_pi_6", 2>>, <<"frac_pi_4", "frac_pi_8", 2>>,
                         <<"frac_2_pi", "frac_1_pi", 2>>, <<"sqrt_2", "frac_1_sqrt_2", 2>>} :
               LET big == ConstDigits[q[1]]
                   one == ConstDigits[q[2]]
               IN Abs((big[1] - q[3] * one[1]) * 10000000 + big[2] - q[3] * one[2]) <= q[3]
         (* reciprocal pairs, to seven digits: c*d = 1 *)
         /\ \A q \in {<<"ln_2", "log2_e">>, <<"ln_10", "log10_e">>, <<"pi", "frac_1_pi">>, <<"sqrt_2", "frac_1_sqrt_2">>} :
               LET c == ConstDigits[q[1]][1] \div 1000
                   d == ConstDigits[q[2]][1] \div 1000
               IN Abs(c * d - 100000000) <= c + d
Formats == /\ LargestOf("i8", 8) = <<7, 7, 0, 1>> /\ SmallestOf("i8", 8) = <<1, 1, 7, -1>>
           /\ Emax("f64") = 2^10 - 1 /\ Emax("f32") = 2^7 - 1
=============================================================================
