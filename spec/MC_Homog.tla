------------------------------ MODULE MC_Homog -----------------------------
(* Laws of homogeneous coordinates over a small field.                       *)
EXTENDS Homog, FiniteSets
VARIABLES v, x
CONSTANT N
vars == <<v, x>>
VS == [1..N -> F]
Init == v = [i \in 1..N |-> 0] /\ x = 0
Next == x = 0 /\ v' \in VS /\ x' \in F
Spec == Init /\ [][Next]_vars
Post(o, a, r) == HomPost(o, <<N + 1>>, a, r)
Out(o, a, n) == {r \in [1..n -> F] : Post(o, a, r)}
H == Append(v, x)
RoundTrip == /\ Out("fromv", <<Append(v, 0)>>, N) = {v} /\ Out("fromp", <<Append(v, 1 % P)>>, N) = {v}
             /\ Out("contract", <<H>>, N) = {v}
(* a homogeneous vector is a direction or a point, never both *)
Apart == /\ (x # 0 => Out("fromv", <<H>>, N) = {} /\ Post("fromv", <<H>>, <<>>))
         /\ (x = 0 => Out("fromp", <<H>>, N) = {} /\ Post("fromp", <<H>>, <<>>))
         /\ Cardinality(Out("fromv", <<H>>, N)) + Cardinality(Out("fromp", <<H>>, N)) = 1
(* scaling a homogeneous vector does not move the point *)
Scale == \A k \in F \ {0} : Out("fromp", <<VScale(H, k)>>, N) = Out("fromp", <<H>>, N)
Differences == \A w \in {v, VUnit(N, 1)} : VSub(Append(v, 1 % P), Append(w, 1 % P)) = Append(VSub(v, w), 0)
=============================================================================
