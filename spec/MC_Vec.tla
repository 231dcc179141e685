------------------------------- MODULE MC_Vec ------------------------------
(* Laws of the vector specification, for all vectors over a small field, and *)
(* that every call has exactly one allowed result.                            *)
EXTENDS Vec, FiniteSets
VARIABLES a, b, c
CONSTANT N
vars == <<a, b, c>>
V == [1..N -> F]
Init == a \in V /\ b = VUnit(N, 1) /\ c = VZero(N)
(* a client that keeps rewriting its vectors with what the calls return *)
Next == \/ b = VUnit(N, 1) /\ b' \in V /\ UNCHANGED <<a, c>>
        \/ c = VZero(N) /\ c' \in {VUnit(N, 1), VUnit(N, N), VFill(N, Two)} /\ UNCHANGED <<a, b>>
        \/ VecPost("add", <<>>, <<a, b>>, a') /\ a' \in V /\ UNCHANGED <<b, c>>
        \/ \E r \in {VAdd(a, c), VSub(b, a), VNeg(b)} : b' = r /\ UNCHANGED <<a, c>>
Spec == Init /\ [][Next]_vars
Results(o, args) == {r \in V : VecPost(o, <<N>>, args, r)}
Scalars(o, args) == {s \in F : VecPost(o, <<N>>, args, <<s>>)}
Determined ==
  /\ \A o \in {"add", "sub", "cmul"} : Cardinality(Results(o, <<a, b>>)) = 1
  /\ \A s \in F : Cardinality(Results("smul", <<a, <<s>>>>)) = 1
  /\ \A s \in F \ {0} : Cardinality(Results("sdiv", <<a, <<s>>>>)) = 1
  /\ \A o \in {"dot", "distsq"} : Cardinality(Scalars(o, <<a, b>>)) = 1
  /\ NormSq(b) # 0 => Cardinality(Results("project", <<a, b>>)) = 1 /\ Cardinality(Results("reflect", <<a, b>>)) = 1
AffineLaws == /\ VAdd(a, VSub(b, a)) = b
              /\ VSub(VAdd(a, b), b) = a
              /\ VAdd(a, b) = VAdd(b, a) /\ VAdd(VAdd(a, b), c) = VAdd(a, VAdd(b, c))
              /\ VAdd(a, VNeg(a)) = VZero(N) /\ VNeg(a) = VScale(a, Fneg(1 % P))
              /\ VMul(a, b) = VMul(b, a) /\ VMul(a, VFill(N, 1 % P)) = a
DotLaws == /\ Dot(a, b) = Dot(b, a)
           /\ Dot(VAdd(a, b), c) = Fadd(Dot(a, c), Dot(b, c))
           /\ \A s \in F : Dot(VScale(a, s), b) = Fmul(s, Dot(a, b))
           /\ \A k \in 1..N : Dot(a, VUnit(N, k)) = a[k]
           /\ NormSq(VSub(a, b)) = Fsub(Fadd(NormSq(a), NormSq(b)), Fmul(Two, Dot(a, b)))
CrossLaws == N = 3 =>
           /\ Cross(a, b) = VNeg(Cross(b, a)) /\ Cross(a, a) = VZero(3)
           /\ Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0
           /\ NormSq(Cross(a, b)) = Fsub(Fmul(NormSq(a), NormSq(b)), Fsq(Dot(a, b)))
           /\ Triple(a, b, c) = Triple(b, c, a) /\ Triple(a, b, c) = Fneg(Triple(b, a, c))
           /\ VAdd(VAdd(Cross(a, Cross(b, c)), Cross(b, Cross(c, a))), Cross(c, Cross(a, b))) = VZero(3)
           /\ Cross(a, Cross(b, c)) = VSub(VScale(b, Dot(a, c)), VScale(c, Dot(a, b)))
GeometryLaws ==
  /\ Lerp(a, b, 0) = a /\ Lerp(a, b, 1 % P) = b
  /\ \A s \in F : Lerp(a, b, s) = Lerp(b, a, Fsub(1 % P, s))
  /\ NormSq(b) # 0 =>
      /\ \A r \in Results("project", <<a, b>>) : Dot(VSub(a, r), b) = 0 /\ IsProjection(r, r, b)
      /\ \A r \in Results("reflect", <<a, b>>) : NormSq(r) = NormSq(a) /\ IsMirror(a, r, b) /\ Dot(r, b) = Fneg(Dot(a, b))
=============================================================================
