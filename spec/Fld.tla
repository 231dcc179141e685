-------------------------------- MODULE Fld --------------------------------
(* Scalars.  The library computes with real numbers (floating point) and     *)
(* machine integers; everything the specification says about sums and        *)
(* products of them is a polynomial identity, so scalars are modelled as the *)
(* residues of exact rationals modulo a prime P: small P for exhaustive      *)
(* model checking, P = 46337 (P*P < 2^31) for validating recorded calls.     *)
(* Division is never computed, only characterised: q = a/b iff q*b = a.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT P

F == 0..(P - 1)
Fneg(x) == (P - x) % P
Fadd(x, y) == (x + y) % P
Fsub(x, y) == (x + P - y) % P
Fmul(x, y) == (x * y) % P
Fsq(x) == (x * x) % P
Int2F(n) == n % P
RECURSIVE Fpow(_, _)
Fpow(x, n) == IF n = 0 THEN 1 % P
              ELSE LET h == Fpow(x, n \div 2) IN IF n % 2 = 0 THEN Fsq(h) ELSE Fmul(x, Fsq(h))
(* Only for writing constants such as 1/2 and for the models: x # 0. *)
Finv(x) == Fpow(x, P - 2)
Two == 2 % P

(* a recorded component is a scalar (negative codes mark NaN, infinities,    *)
(* values that are not small rationals, and panics)                          *)
IsScalars(s) == \A i \in DOMAIN s : s[i] >= 0

Fsum(s) == FoldLeft(LAMBDA acc, x : (acc + x) % P, 0, s)
B(b) == IF b THEN <<1>> ELSE <<0>>

(* Truncating division and remainder of plain integers (machine semantics). *)
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TRem(a, b) == a - b * TDiv(a, b)
Min2(x, y) == IF x <= y THEN x ELSE y
Max2(x, y) == IF x >= y THEN x ELSE y
=============================================================================
