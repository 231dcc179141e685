-------------------------------- MODULE Mat --------------------------------
(* Matrices: column-major sequences of scalars; shapes are given separately. *)
EXTENDS Vec

(* entry in row i, column j of an R-row matrix *)
At(m, R, i, j) == m[(j - 1) * R + i]
RowOf(k, R) == ((k - 1) % R) + 1
ColOf(k, R) == ((k - 1) \div R) + 1
(* the R x C matrix with entries f(i, j) *)
Mk(R, C, f(_, _)) == [k \in 1..(R * C) |-> f(RowOf(k, R), ColOf(k, R))]

Transpose(m, R, C) == Mk(C, R, LAMBDA i, j : At(m, R, j, i))
RECURSIVE RowCol(_, _, _, _, _, _)
RowCol(a, R, b, N, ij, n) ==
  IF n = 0 THEN 0
  ELSE (RowCol(a, R, b, N, ij, n - 1) + ((At(a, R, ij[1], n) * At(b, N, n, ij[2])) % P)) % P
MatMul(a, b, R, N, C) == Mk(R, C, LAMBDA i, j : RowCol(a, R, b, N, <<i, j>>, N))
MatVec(a, v, R, C) == MatMul(a, v, R, C, 1)
Ident(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN 1 % P ELSE 0)
DiagOf(n, v) == Mk(n, n, LAMBDA i, j : IF i = j THEN v[i] ELSE 0)
Diag(m, n) == [i \in 1..n |-> At(m, n, i, i)]
Trace0(m, n) == Fsum(Diag(m, n))
Row(m, R, C, i) == [j \in 1..C |-> At(m, R, i, j)]
Col(m, R, j) == [i \in 1..R |-> At(m, R, i, j)]
IsSymmetric(m, n) == m = Transpose(m, n, n)
IsDiagonal(m, n) == m = DiagOf(n, Diag(m, n))
Sw(i, a, b) == IF i = a THEN b ELSE IF i = b THEN a ELSE i
SwapRows(m, R, C, a, b) == Mk(R, C, LAMBDA i, j : At(m, R, Sw(i, a, b), j))
SwapCols(m, R, C, a, b) == Mk(R, C, LAMBDA i, j : At(m, R, i, Sw(j, a, b)))
SwapEl(m, R, a, b) == [m EXCEPT ![(a[1] - 1) * R + a[2]] = At(m, R, b[2], b[1]),
                                ![(b[1] - 1) * R + b[2]] = At(m, R, a[2], a[1])]
(* leading M x M block m completed by the identity *)
Embed(m, M, N) == Mk(N, N, LAMBDA i, j : IF i <= M /\ j <= M THEN At(m, M, i, j) ELSE IF i = j THEN 1 % P ELSE 0)
(* [v]_x : the matrix of w |-> v x w *)
CrossMat(v) == << 0, v[3], Fneg(v[2]), Fneg(v[3]), 0, v[1], v[2], Fneg(v[1]), 0 >>

(* Laplace expansion along the first column. *)
Minor(m, n, r, c) == [k \in 1..((n - 1) * (n - 1)) |->
    LET i == RowOf(k, n - 1)  j == ColOf(k, n - 1)
    IN  At(m, n, IF i < r THEN i ELSE i + 1, IF j < c THEN j ELSE j + 1)]
RECURSIVE Det(_, _)
Det(m, n) ==
  IF n = 1 THEN m[1]
  ELSE IF n = 2 THEN Fsub(Fmul(m[1], m[4]), Fmul(m[2], m[3]))
  ELSE Fsum([r \in 1..n |-> LET t == Fmul(m[r], Det(Minor(m, n, r, 1), n - 1))
                            IN  IF r % 2 = 1 THEN t ELSE Fneg(t)])
IsInverse(r, m, n) == /\ Len(r) = n * n /\ IsScalars(r)
                      /\ MatMul(r, m, n, n, n) = Ident(n)
                      /\ MatMul(m, r, n, n, n) = Ident(n)
(* orthogonal of determinant one *)
IsRotation(m, n) == /\ Len(m) = n * n /\ IsScalars(m)
                    /\ MatMul(m, Transpose(m, n, n), n, n, n) = Ident(n) /\ Det(m, n) = 1 % P

MatPost(o, d, a, r) ==
  CASE o = "mul"       -> r = MatMul(a[1], a[2], d[1], d[2], d[3])
    [] o = "trmul"     -> r = MatMul(Transpose(a[1], d[2], d[1]), a[2], d[1], d[2], d[3])
    [] o = "trdot"     -> r = <<Trace0(MatMul(a[1], a[2], d[1], d[2], d[1]), d[1])>>
    [] o = "transpose" -> r = Transpose(a[1], d[1], d[2])
    [] o = "ident"     -> r = Ident(d[1])
    [] o = "diagval"   -> r = DiagOf(d[1], VFill(d[1], a[1][1]))
    [] o = "fromdiag"  -> r = DiagOf(d[1], a[1])
    [] o = "diag"      -> r = Diag(a[1], d[1])
    [] o = "trace"     -> r = <<Trace0(a[1], d[1])>>
    [] o = "isident"   -> r = B(a[1] = Ident(d[1]))
    [] o = "isdiag"    -> r = B(IsDiagonal(a[1], d[1]))
    [] o = "issym"     -> r = B(IsSymmetric(a[1], d[1]))
    [] o = "row"       -> r = Row(a[1], d[1], d[2], d[3])
    [] o = "col"       -> r = Col(a[1], d[1], d[3])
    [] o = "fromrows"  -> r = Transpose(a[1], d[2], d[1])
    [] o = "swaprows"  -> r = SwapRows(a[1], d[1], d[2], d[3], d[4])
    [] o = "swapcols"  -> r = SwapCols(a[1], d[1], d[2], d[3], d[4])
    [] o = "swapel"    -> r = SwapEl(a[1], d[1], <<d[3], d[4]>>, <<d[5], d[6]>>)
    [] o = "embed"     -> r = Embed(a[1], d[1], d[2])
    [] o = "crossmat"  -> r = CrossMat(a[1])
    [] o = "det"       -> r = <<Det(a[1], d[1])>>
    [] o = "inv"       -> IF Det(a[1], d[1]) = 0 THEN r = <<>> ELSE IsInverse(r, a[1], d[1])
    [] o = "isinv"     -> r = B(Det(a[1], d[1]) # 0)
    [] o = "square"    -> r = B(d[1] = d[2])
    [] o = "shape"     -> r = <<d[1], d[2], d[1] * d[2], 0>>
=============================================================================
