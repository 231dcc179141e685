------------------------------- MODULE MC_Frm ------------------------------
(* The integer operators of Frm are the field operators of the other modules  *)
(* modulo P, and truncated division is division with remainder.               *)
EXTENDS Frm, Quat, Mat
VARIABLES x, y
CONSTANTS N, Hi
vars == <<x, y>>
Z == (0 - Hi)..Hi
VS == [1..N -> Z]
Nil == [i \in 1..N |-> 0]
Res(v) == [i \in 1..Len(v) |-> v[i] % P]
Init == x \in VS /\ y = Nil
Next == y = Nil /\ y' \in VS /\ x' = x
Spec == Init /\ [][Next]_vars
Val(o, d) == OpValue(o, d, <<x, y>>)
Elementwise == /\ Res(Val("add", <<N>>)) = VAdd(Res(x), Res(y)) /\ Res(Val("sub", <<N>>)) = VSub(Res(x), Res(y))
               /\ Res(Val("smul", <<N>>)) = VScale(Res(x), y[1] % P)
Division == \A i \in 1..N : y[i] # 0 => /\ y[i] * TDiv(x[i], y[i]) + TRem(x[i], y[i]) = x[i]
                                          /\ Abs(TRem(x[i], y[i])) < Abs(y[i]) /\ (TRem(x[i], y[i]) = 0 \/ Sgn(TRem(x[i], y[i])) = Sgn(x[i]))
                                          /\ TDiv(0 - x[i], y[i]) = 0 - TDiv(x[i], y[i])
Products == /\ (N = 4 => Res(RQMul(x, y)) = QMul(Res(x), Res(y)) /\ Res(RMat(x, y, 2, 2, 2)) = MatMul(Res(x), Res(y), 2, 2, 2))
            /\ (N = 2 => Res(RCMul(x, y)) = <<Fsub(Fmul(x[1] % P, y[1] % P), Fmul(x[2] % P, y[2] % P)), Fadd(Fmul(x[1] % P, y[2] % P), Fmul(x[2] % P, y[1] % P))>>
                        /\ Res(RMat(x, y, 2, 1, 2)) = MatMul(Res(x), Res(y), 2, 1, 2) /\ Res(RMat(x, y, 1, 2, 1)) = MatMul(Res(x), Res(y), 1, 2, 1))
(* one deviating form is noticed *)
Noticed == AllForms(x \o x \o x, N, x) /\ (x # y => ~AllForms(x \o x \o y, N, x) /\ ~AllForms(y \o x, N, x)) /\ ~AllForms(<<>>, N, x)
Projection == \A i \in 1..N : (x[i] = y[i]) => x[i] % P = y[i] % P
(* numbers in range are told apart by their residues *)
Faithful == P > 2 * Hi => \A i \in 1..N : x[i] # y[i] => x[i] % P # y[i] % P
=============================================================================
