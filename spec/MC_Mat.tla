------------------------------- MODULE MC_Mat ------------------------------
(* Laws of the matrix specification over a small field: ring, transpose,     *)
(* determinant and inverse; every call has exactly one allowed result.        *)
EXTENDS Homog, FiniteSets
VARIABLES m, k, steps
CONSTANTS N, Depth, Few
vars == <<m, k, steps>>
MS == [1..(N * N) -> F]
I == Ident(N)
MMul(x, y) == MatMul(x, y, N, N, N)
T(x) == Transpose(x, N, N)
CrossLike == Mk(N, N, LAMBDA i, j : IF j = (i % N) + 1 THEN Fneg(1 % P) ELSE 0)
Test == {I, VZero(N * N), Mk(N, N, LAMBDA i, j : IF i <= j THEN 1 % P ELSE 0), CrossLike}
Init == m \in MS /\ k = I /\ steps = 0
Pick == steps = 0 /\ steps' = 1 /\ m' = m /\ k' \in (IF Few THEN Test ELSE MS)
Next == Pick \/ (steps > 0 /\ steps < Depth /\ steps' = steps + 1 /\
        (\/ m' = MMul(m, k) /\ k' = k
         \/ m' = T(m) /\ k' = k
         \/ k' = VAdd(m, k) /\ m' = m
         \/ \E i, j \in 1..N : m' = SwapRows(m, N, N, i, j) /\ k' = k
         \/ \E x \in MS : Det(m, N) # 0 /\ IsInverse(x, m, N) /\ m' = x /\ k' = k))
Spec == Init /\ [][Next]_vars
RingLaws == /\ MMul(m, I) = m /\ MMul(I, m) = m
            /\ \A x \in Test : /\ MMul(MMul(m, k), x) = MMul(m, MMul(k, x))
                               /\ MMul(m, VAdd(k, x)) = VAdd(MMul(m, k), MMul(m, x))
                               /\ MMul(VAdd(m, k), x) = VAdd(MMul(m, x), MMul(k, x))
            /\ \A v \in {VUnit(N, 1), VFill(N, 1 % P)} : MatVec(MMul(m, k), v, N, N) = MatVec(m, MatVec(k, v, N, N), N, N)
            /\ \A j \in 1..N : MatVec(m, VUnit(N, j), N, N) = Col(m, N, j)
TransposeLaws == /\ T(T(m)) = m /\ T(MMul(m, k)) = MMul(T(k), T(m)) /\ T(VAdd(m, k)) = VAdd(T(m), T(k))
                 /\ \A i \in 1..N : Row(m, N, N, i) = Col(T(m), N, i)
                 /\ IsSymmetric(VAdd(m, T(m)), N) /\ IsSymmetric(MMul(m, T(m)), N)
                 /\ Trace0(MMul(m, k), N) = Trace0(MMul(k, m), N) /\ Trace0(m, N) = Trace0(T(m), N)
                 /\ Dot(m, k) = Trace0(MMul(T(m), k), N)
                 /\ (IsDiagonal(m, N) => IsSymmetric(m, N))
DetLaws == /\ Det(MMul(m, k), N) = Fmul(Det(m, N), Det(k, N))
           /\ Det(T(m), N) = Det(m, N) /\ Det(I, N) = 1 % P
           /\ \A i, j \in 1..N : i # j => Det(SwapRows(m, N, N, i, j), N) = Fneg(Det(m, N)) /\ Det(SwapCols(m, N, N, i, j), N) = Fneg(Det(m, N))
           (* singular exactly when some non-zero vector is annihilated *)
           /\ (Det(m, N) = 0) <=> (\E v \in [1..N -> F] \ {VZero(N)} : MatVec(m, v, N, N) = VZero(N))
           /\ Det(Embed(m, N, N + 1), N + 1) = Det(m, N)
InverseLaws == (steps = 1 /\ k = I) => Cardinality({x \in MS : IsInverse(x, m, N)}) = IF Det(m, N) = 0 THEN 0 ELSE 1
EmbedLaws == /\ MatMul(Embed(m, N, N + 1), Embed(k, N, N + 1), N + 1, N + 1, N + 1) = Embed(MMul(m, k), N, N + 1)
             /\ \A v \in {VUnit(N, 1), VFill(N, Two)} : \A w \in {0, 1 % P} :
                  MatVec(Embed(m, N, N + 1), Append(v, w), N + 1, N + 1) = Append(MatVec(m, v, N, N), w)
CrossMatLaw == N = 3 => \A v \in {VUnit(3, 1), VUnit(3, 2), VFill(3, 1 % P)} : MatVec(CrossMat(Col(m, 3, 1)), v, 3, 3) = Cross(Col(m, 3, 1), v)
=============================================================================
