------------------------------- MODULE MC_Ang ------------------------------
(* Laws of angle normalisation: an angle that is turned by steps, next to its *)
(* normal forms.                                                              *)
EXTENDS Ang
VARIABLES x, turned
CONSTANTS Steps, Reach
vars == <<x, turned>>
Init == x = 0 /\ turned = 0
Next == \E s \in Steps : x' = x + s /\ turned' = Wrap(turned + s) /\ Abs(x') <= Reach
Spec == Init /\ [][Next]_vars
Ranged == Wrap(x) \in 0..(Turn - 1) /\ WrapSigned(x) \in (0 - Turn \div 2)..(Turn \div 2 - 1)
Congruent == (x - Wrap(x)) % Turn = 0 /\ (x - WrapSigned(x)) % Turn = 0
Additive == turned = Wrap(x)
Idempotent == Wrap(Wrap(x)) = Wrap(x) /\ WrapSigned(WrapSigned(x)) = WrapSigned(x) /\ Wrap(WrapSigned(x)) = Wrap(x) /\ WrapSigned(Wrap(x)) = WrapSigned(x)
OppositeLaw == Opposite(Opposite(x)) = Wrap(x) /\ Opposite(x) # Wrap(x)
BisectLaw == \A y \in Steps : (x + y) % 2 = 0 => Bisect(x, y) = Bisect(y, x) /\ (2 * Bisect(x, y) - (x + y)) % Turn = 0 /\ Bisect(x, x) = Wrap(x)
OddSteps == {1, 7, 45, 360, 720, 2880, 0 - 1, 0 - 90, 0 - 2879}
=============================================================================
