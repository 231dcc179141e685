------------------------------ MODULE Typing -------------------------------
(* Which programs combining shaped objects have a type, and which.  A type   *)
(* is <<kind, rows, columns>>.  A program applies one operation to arguments *)
(* of given types and binds the result to a claimed type (or to none).       *)
EXTENDS Integers, Sequences
tAny == 0  tMat == 1  tVec == 2  tPnt == 3  tSca == 4  tQua == 5  tCpx == 6  tArr == 7  tBoo == 8  tUni == 9
tTra == 10  tRot == 11  tScl == 12  tShr == 13  tRef == 14  tIso == 15  tSim == 16  tTfm == 17
TfKinds == 10..17
NoT == <<-1, 0, 0>>
TMat(r, c) == <<tMat, r, c>>
TVec(n) == <<tVec, n, 0>>
TPnt(n) == <<tPnt, n, 0>>
TSca == <<tSca, 0, 0>>
TUni == <<tUni, 0, 0>>
TBoo == <<tBoo, 0, 0>>
(* dimensions that have instances; points have at most three coordinates in  *)
(* the programs, and a homogeneous point has at most four                    *)
MaxDim == 4
Instance(t) == CASE t[1] = tMat -> t[2] \in 1..MaxDim /\ t[3] \in 1..MaxDim
                 [] t[1] \in {tVec, tPnt} -> t[2] \in 1..MaxDim
                 [] OTHER -> TRUE
Alg == {tMat, tVec, tQua, tCpx}      \* kinds with linear structure
SquareT(t) == t[1] = tMat /\ t[2] = t[3]

BinType(o, x, y) ==
  CASE o = "mul" ->
         CASE x[1] = tMat /\ y[1] = tMat -> IF x[3] = y[2] THEN TMat(x[2], y[3]) ELSE NoT
           [] x[1] = tMat /\ y[1] = tVec -> IF x[3] = y[2] THEN TVec(x[2]) ELSE NoT
           [] x = TSca /\ y[1] \in Alg \cup {tPnt, tSca} -> y
           [] y = TSca /\ x[1] \in Alg \cup {tPnt} -> x
           [] x[1] \in {tQua, tCpx} /\ x = y -> x
           [] OTHER -> NoT
    [] o \in {"add", "sub"} ->
         CASE x = y /\ x[1] \in Alg \cup {tSca} -> x
           [] x = y /\ x[1] = tPnt -> IF o = "sub" THEN TVec(x[2]) ELSE NoT
           [] x[1] = tPnt /\ y[1] = tVec -> IF x[2] = y[2] THEN x ELSE NoT
           [] {x[1], y[1]} = {tSca, tCpx} -> <<tCpx, 0, 0>>
           [] OTHER -> NoT
    [] o \in {"addasg", "subasg"} ->
         CASE x = y /\ x[1] \in Alg \cup {tSca} -> TUni
           [] x[1] = tPnt /\ y[1] = tVec /\ x[2] = y[2] -> TUni
           [] OTHER -> NoT
    [] o = "mulasg" -> IF x = y /\ x[1] \in {tSca, tCpx} THEN TUni ELSE NoT
    [] o = "eq"    -> IF x = y THEN TBoo ELSE NoT
    [] o = "dot"   -> IF x = y /\ x[1] \in {tMat, tVec, tPnt, tQua} THEN TSca ELSE NoT
    [] o = "cross" -> IF x = y /\ x = TVec(3) THEN x ELSE NoT
    [] o = "cmul"  -> IF x = y /\ x[1] \in {tMat, tVec} THEN x ELSE NoT
    [] o = "lerp"  -> IF x = y /\ x[1] \in {tMat, tVec, tQua} THEN x ELSE NoT
    [] o = "trmul" -> IF x[1] = tMat /\ y[1] = tMat /\ x[2] = y[2] THEN TMat(x[3], y[3]) ELSE NoT
    [] o = "trdot" -> IF x[1] = tMat /\ y[1] = tMat /\ x[2] = y[3] /\ x[3] = y[2] THEN TSca ELSE NoT
    [] o = "applyp" -> IF y = TPnt(x[2]) THEN y ELSE NoT
    [] o = "applyv" -> IF y = TVec(x[2]) THEN y ELSE NoT
    (* composing shears leaves the shears; every other kind is closed *)
    [] o = "compose" -> IF x = y THEN (IF x[1] = tShr THEN <<tTfm, x[2], 0>> ELSE x) ELSE NoT
    [] o = "fromcols" -> TMat(x[2], y[2])
    [] o = "fromrows" -> TMat(y[2], x[2])

UnType(o, x) ==
  CASE o = "transpose" -> TMat(x[3], x[2])
    [] o = "trmut"     -> IF SquareT(x) THEN TUni ELSE NoT
    [] o \in {"trace", "det"} -> IF SquareT(x) THEN TSca ELSE NoT
    [] o = "inverse"   -> IF SquareT(x) \/ x[1] \in TfKinds THEN x ELSE NoT
    [] o = "diagonal"  -> IF SquareT(x) THEN TVec(x[2]) ELSE NoT
    [] o = "row"       -> TVec(x[3])
    [] o = "column"    -> TVec(x[2])
    [] o = "neg"       -> x
    [] o = "extend"    -> <<x[1], x[2] + 1, 0>>
    [] o = "contract"  -> IF x[2] > 1 THEN <<x[1], x[2] - 1, 0>> ELSE NoT
    [] o = "tohom"     -> TVec(x[2] + 1)
    [] o = "vfromhom"  -> IF x[1] = tVec /\ x[2] > 1 THEN TVec(x[2] - 1) ELSE NoT
    [] o = "pfromhom"  -> IF x[1] = tVec /\ x[2] > 1 THEN TPnt(x[2] - 1) ELSE NoT
    [] o = "fromdiag"  -> TMat(x[2], x[2])
    [] o = "asarr"     -> CASE x[1] = tMat -> <<tArr, x[2] * x[3], 0>>
                            [] x[1] = tQua -> <<tArr, 4, 0>>
                            [] x[1] = tCpx -> <<tArr, 2, 0>>
                            [] OTHER -> <<tArr, x[2], 0>>
    [] o = "toaffine"  -> TMat(x[2] + 1, x[2] + 1)

(* the claimed result is right (any claim is right for an unclaimed result) *)
Claim(d, t) == t # NoT /\ (d[1] = tAny \/ d = t)
(* the program (o, a) binding its result to d has a type *)
WellTyped(o, d, a) ==
  CASE o = "identity" -> SquareT(d)
    [] o = "embed"    -> SquareT(d) /\ SquareT(a[1]) /\ a[1][2] < d[2]
    [] o = "fromarr"  -> d \in {TVec(a[1][2]), TPnt(a[1][2])} \/ (d[1] = tQua /\ a[1][2] = 4) \/ (d[1] = tCpx /\ a[1][2] = 2)
    [] Len(a) = 2     -> Claim(d, BinType(o, a[1], a[2]))
    [] OTHER          -> Claim(d, UnType(o, a[1]))

(* the compiler's verdict r on the program.  Where a dimension has no        *)
(* instance the library promises only that wrong programs are rejected.      *)
TypPost(o, d, a, r) ==
  IF \A i \in DOMAIN a : Instance(a[i]) /\ Instance(d)
  THEN r = IF WellTyped(o, d, a) THEN <<1>> ELSE <<0>>
  ELSE r = <<1>> => WellTyped(o, d, a)
=============================================================================
