-------------------------------- MODULE Cast -------------------------------
(* Numeric conversions.  A number is <<sign, nine base-2^15 digits of the     *)
(* integer part (most significant first), eighths>>; sign 2, 3, 4 mark NaN,   *)
(* plus and minus infinity.  A scalar type is <<bits, kind>>: kind 0 unsigned *)
(* integer, 1 signed integer, 2 floating point.                              *)
EXTENDS Fld

Digits == 9
Width == Digits + 2
Mag(x) == SubSeq(x, 2, Digits + 1)
ZeroMag == [i \in 1..Digits |-> 0]
(* 2^k, k < 15 * Digits *)
Pow2Mag(k) == [i \in 1..Digits |-> IF Digits - i = k \div 15 THEN 2^(k % 15) ELSE 0]
RECURSIVE MagLt(_, _, _)
MagLt(x, y, i) == IF i > Digits THEN FALSE
                  ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE MagLt(x, y, i + 1)
Less(x, y) == MagLt(x, y, 1)
(* 2^k - 1 *)
RECURSIVE DecFrom(_, _)
DecFrom(m, i) == IF m[i] > 0 THEN [m EXCEPT ![i] = @ - 1] ELSE DecFrom([m EXCEPT ![i] = 32767], i - 1)
Below2(k) == DecFrom(Pow2Mag(k), Digits)

IsNumber(x) == x[1] \in {-1, 0, 1}
Trunc(x) == IF Mag(x) = ZeroMag THEN [i \in 1..Width |-> 0] ELSE [x EXCEPT ![Width] = 0]
InRange(x, bits, kind) ==
  CASE kind = 0 -> x[1] >= 0 /\ Less(Mag(x), Pow2Mag(bits))
    [] kind = 1 -> IF x[1] >= 0 THEN Less(Mag(x), Pow2Mag(bits - 1)) ELSE ~Less(Pow2Mag(bits - 1), Mag(x))
(* <<>>: not representable *)
CastOne(x, bits, kind) ==
  IF kind = 2 THEN x
  ELSE IF IsNumber(x) /\ InRange(Trunc(x), bits, kind) THEN Trunc(x) ELSE <<>>
CastAll(xs, bits, kind) ==
  IF \E i \in 1..Len(xs) : CastOne(xs[i], bits, kind) = <<>> THEN <<>>
  ELSE FlattenSeq([i \in 1..Len(xs) |-> CastOne(xs[i], bits, kind)])
Smallest(bits, kind) == IF kind = 0 THEN [i \in 1..Width |-> 0] ELSE <<-1>> \o Pow2Mag(bits - 1) \o <<0>>
Largest(bits, kind) == <<1>> \o Below2(IF kind = 0 THEN bits ELSE bits - 1) \o <<0>>

CastPost(o, d, a, r) ==
  CASE o = "try"  -> r = CastAll(a, d[1], d[2])
    (* the infallible form panics instead *)
    [] o = "must" -> r = (IF CastAll(a, d[1], d[2]) = <<>> THEN <<-9>> ELSE CastAll(a, d[1], d[2]))
    [] o = "min"  -> r = Smallest(d[1], d[2])
    [] o = "max"  -> r = Largest(d[1], d[2])
    (* the scalar layer's functions are the primitive type's: distance of the *)
    (* two results in units in the last place                                 *)
    [] o = "prim" -> r[1] >= 0 /\ r[1] <= 16
    [] o = "flag" -> r = a[1]
=============================================================================
