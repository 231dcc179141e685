----------------------------- MODULE MC_Typing -----------------------------
(* Programs as stacks of typed values: every operation pops its arguments    *)
(* and pushes its result.  Products of shapes reassociate, transposition     *)
(* reverses them, and nothing ill-shaped is ever pushed.                      *)
EXTENDS Typing
VARIABLES stack
CONSTANT Depth
D == 1..MaxDim
Leaf == {TMat(r, c) : r \in D, c \in D} \cup {TVec(n) : n \in D} \cup {TPnt(n) : n \in 1..3}
        \cup {TSca, <<tQua, 0, 0>>, <<tCpx, 0, 0>>}
Bin == {"mul", "add", "sub", "cmul", "trmul", "dot", "cross", "lerp"}
UnOk(o, x) == CASE o \in {"transpose", "diagonal", "row", "column", "trace", "det", "inverse"} -> x[1] = tMat
                [] o \in {"extend", "contract", "tohom"} -> x[1] \in {tVec, tPnt}
                [] o \in {"vfromhom", "pfromhom", "fromdiag"} -> x[1] = tVec
Un == {"transpose", "diagonal", "row", "column", "trace", "det", "inverse", "extend", "contract", "tohom", "vfromhom", "pfromhom", "fromdiag"}
Init == stack = <<>>
Push == Len(stack) < Depth /\ \E t \in Leaf : stack' = Append(stack, t)
Apply2 == Len(stack) >= 2 /\ LET n == Len(stack) IN \E o \in Bin :
            /\ BinType(o, stack[n - 1], stack[n]) # NoT
            /\ stack' = Append(SubSeq(stack, 1, n - 2), BinType(o, stack[n - 1], stack[n]))
Apply1 == Len(stack) >= 1 /\ LET n == Len(stack) IN \E o \in Un :
            /\ UnOk(o, stack[n]) /\ UnType(o, stack[n]) # NoT /\ Instance(UnType(o, stack[n]))
            /\ stack' = Append(SubSeq(stack, 1, n - 1), UnType(o, stack[n]))
Next == Push \/ Apply2 \/ Apply1
Spec == Init /\ [][Next]_stack

M(x, y) == IF x = NoT \/ y = NoT THEN NoT ELSE BinType("mul", x, y)
T(x) == IF x = NoT THEN NoT ELSE UnType("transpose", x)
Shaped == \A i \in DOMAIN stack : Instance(stack[i])
n == Len(stack)
Reassociate == n >= 3 => LET x == stack[n - 2] y == stack[n - 1] z == stack[n] IN
    (x[1] = tMat /\ y[1] = tMat /\ z[1] \in {tMat, tVec}) =>
       (M(M(x, y), z) # NoT /\ M(y, z) # NoT => M(M(x, y), z) = M(x, M(y, z)))
       /\ ((M(x, y) # NoT /\ M(y, z) # NoT) <=> (M(M(x, y), z) # NoT))
       /\ ((M(x, y) # NoT /\ M(y, z) # NoT) <=> (M(x, M(y, z)) # NoT))
Transposes == n >= 2 => LET x == stack[n - 1] y == stack[n] IN
    (x[1] = tMat /\ y[1] = tMat) => /\ T(T(x)) = x
                                    /\ T(M(x, y)) = M(T(y), T(x))
                                    /\ BinType("trmul", x, y) = M(T(x), y)
                                    /\ (BinType("trdot", x, y) # NoT <=> BinType("dot", T(x), y) # NoT)
Distribute == n >= 3 => LET x == stack[n - 2] y == stack[n - 1] z == stack[n] IN
    (x[1] = tMat /\ y[1] \in {tMat, tVec} /\ BinType("add", y, z) # NoT /\ M(x, y) # NoT)
       => M(x, BinType("add", y, z)) = BinType("add", M(x, y), M(x, z))
Affine == n >= 2 => LET x == stack[n - 1] y == stack[n] IN
    (x[1] = tPnt /\ y[1] = tPnt /\ BinType("sub", x, y) # NoT) => BinType("add", y, BinType("sub", x, y)) = x
Homogeneous == n >= 1 => LET x == stack[n] IN
    /\ (x[1] = tVec /\ x[2] < MaxDim => UnType("vfromhom", UnType("tohom", x)) = x /\ UnType("contract", UnType("extend", x)) = x)
    /\ (x[1] = tPnt => UnType("pfromhom", UnType("tohom", x)) = x)
=============================================================================
