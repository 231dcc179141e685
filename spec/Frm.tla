-------------------------------- MODULE Frm --------------------------------
(* The forms of an operator.  One event carries the results of every form    *)
(* (owned, borrowed, mixed, compound assignment, scalar on the left) on the  *)
(* same operands, as plain integers; all must be the operator's value.       *)
EXTENDS Fld

Ew(Op(_, _), x, y) == [i \in 1..Len(x) |-> Op(x[i], y[i])]
RSum(n, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])
(* column-major; entry (row, column) of an R-row matrix *)
EAt(m, R, i, j) == m[(j - 1) * R + i]
RMat(x, y, R, K, C) ==
  [e \in 1..(R * C) |-> LET i == ((e - 1) % R) + 1
                            j == ((e - 1) \div R) + 1
                        IN RSum(K, LAMBDA k : EAt(x, R, i, k) * EAt(y, K, k, j))]
RQMul(p, q) ==
  << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
     p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
     p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
     p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
RCMul(z, w) == << z[1]*w[1] - z[2]*w[2], z[1]*w[2] + z[2]*w[1] >>

Forms(r, n) == {SubSeq(r, (i - 1) * n + 1, i * n) : i \in 1..(Len(r) \div n)}
(* every form of the operator yields v *)
AllForms(r, n, v) == Len(r) > 0 /\ Len(r) % n = 0 /\ Forms(r, n) = {v}

OpValue(o, d, a) ==
  LET x == a[1]  k == a[2][1] IN
  CASE o = "add"  -> Ew(LAMBDA s, t : s + t, x, a[2])
    [] o = "sub"  -> Ew(LAMBDA s, t : s - t, x, a[2])
    [] o = "smul" -> [i \in 1..Len(x) |-> x[i] * k]
    [] o = "sdiv" -> [i \in 1..Len(x) |-> TDiv(x[i], k)]
    [] o = "srem" -> [i \in 1..Len(x) |-> TRem(x[i], k)]
    [] o = "sadd" -> <<x[1] + k, x[2]>>
    [] o = "ssub" -> <<x[1] - k, x[2]>>
    [] o = "lsub" -> <<k - x[1], 0 - x[2]>>
    [] o = "mvec" -> RMat(x, a[2], d[2], d[3], 1)
    [] o = "mmul" -> RMat(x, a[2], d[2], d[3], d[4])
    [] o = "qmul" -> RQMul(x, a[2])
    [] o = "cmul" -> RCMul(x, a[2])

FrmPost(o, d, a, r) ==
  CASE o = "neg"  -> AllForms(r, d[1], [i \in 1..Len(a[1]) |-> 0 - a[1][i]])
    (* quotients are exact: the quotient times the divisor is the dividend *)
    [] o = "cdiv" -> /\ Len(r) > 0 /\ Len(r) % 2 = 0
                     /\ \A v \in Forms(r, 2) : RCMul(v, a[2]) = a[1]
    [] OTHER      -> AllForms(r, d[1], OpValue(o, d, a))

(* scalar - complex keeps the sign of the imaginary part *)
IsScalarMinusComplexBug(o, d, a, r) ==
  o = "lsub" /\ AllForms(r, 2, <<a[2][1] - a[1][1], a[1][2]>>)
=============================================================================
