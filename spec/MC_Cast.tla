------------------------------ MODULE MC_Cast ------------------------------
(* Laws of numeric conversion, around every type boundary.                   *)
EXTENDS Cast, FiniteSets
VARIABLES x, ty, steps
vars == <<x, ty, steps>>
Types == {<<b, k>> : b \in {8, 16, 32, 64, 128}, k \in {0, 1}}
(* numbers sign * (2^k + delta) + e/8 *)
Inc(m) == [m EXCEPT ![Digits] = @ + 1]
Mags == {Pow2Mag(k) : k \in {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128}} \cup {Below2(k) : k \in {1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128}} \cup {ZeroMag} \cup {Inc(Pow2Mag(k)) : k \in {7, 15, 31, 63, 127}}
Num(s, m, e) == IF m = ZeroMag /\ e = 0 THEN [i \in 1..Width |-> 0] ELSE <<s>> \o m \o <<e>>
Numbers == {Num(s, m, e) : s \in {-1, 1}, m \in Mags, e \in {0, 1, 7}}
Init == x \in Numbers \cup {<<2>> \o ZeroMag \o <<0>>, <<3>> \o ZeroMag \o <<0>>} /\ ty \in Types /\ steps = 0
(* cast along a chain of types; x becomes the converted value *)
Next == steps < 2 /\ steps' = steps + 1 /\ \E u \in Types : CastOne(x, u[1], u[2]) # <<>> /\ x' = CastOne(x, u[1], u[2]) /\ ty' = u
Spec == Init /\ [][Next]_vars
C(y, t) == CastOne(y, t[1], t[2])
Rank(y, z) == IF y[1] # z[1] THEN y[1] < z[1] ELSE IF y[1] >= 0 THEN Less(Mag(y), Mag(z)) ELSE Less(Mag(z), Mag(y))
(* a converted value lies between the type's bounds *)
Bounded == \A t \in Types : C(x, t) # <<>> => ~Rank(C(x, t), Smallest(t[1], t[2])) /\ ~Rank(Largest(t[1], t[2]), C(x, t))
(* what lies outside is refused *)
Refuses == (x[1] \in {-1, 0, 1}) => \A t \in Types : (C(x, t) = <<>>) <=> (Rank(Trunc(x), Smallest(t[1], t[2])) \/ Rank(Largest(t[1], t[2]), Trunc(x)))
NotNumbers == x[1] > 1 => \A t \in Types : C(x, t) = <<>>
Idempotent == steps > 0 => C(x, ty) = x
(* widening never fails, and comes back *)
Widens == steps > 0 => \A t \in Types : (t[1] >= ty[1] /\ t[2] = ty[2]) => C(x, t) = x
Signs == C(x, <<64, 0>>) # <<>> => C(x, <<64, 0>>)[1] >= 0
Bounds == \A t \in Types : C(Largest(t[1], t[2]), t) = Largest(t[1], t[2]) /\ C(Smallest(t[1], t[2]), t) = Smallest(t[1], t[2])
=============================================================================
