------------------------------- MODULE Shape -------------------------------
(* The type-level dimension calculus.  A program holds a set of judgments    *)
(* about dimensions; the library's traits let it derive further ones.        *)
(* Dimensions are naturals (Const<n>); codes >= 1000 are dimensions that are *)
(* not numbers: user-defined types, or the type parameters of a generic      *)
(* program.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Supported == 1..4
Num(x) == x < 1000

(* kinds of judgments *)
ADD == 1  SUB == 2  MUL == 3  LT == 4  EQ == 5  CANMUL == 6  CANTMUL == 7
EXT == 8  CON == 9  DIMSELF == 10  REP == 11
(* the sum, difference, product is defined (whatever it is); the result of    *)
(* operation j[2] on j[3], j[4] is itself a dimension                         *)
ADDX == 13  SUBX == 14  MULX == 15  OUTDIM == 12

(* ---- meaning of a judgment between numbers ---- *)
Holds(j) ==
  CASE j[1] = ADD     -> j[2] + j[3] = j[4]
    [] j[1] = SUB     -> j[2] >= j[3] /\ j[2] - j[3] = j[4]
    [] j[1] = MUL     -> j[2] * j[3] = j[4]
    [] j[1] = LT      -> j[2] < j[3]
    [] j[1] = EQ      -> j[2] = j[3]
    [] j[1] = REP     -> j[2] = j[3] /\ j[4] = j[2]
    [] j[1] = CANMUL  -> j[3] = j[4]
    [] j[1] = CANTMUL -> j[2] = j[4]
    [] j[1] = EXT     -> j[3] = j[2] + 1
    [] j[1] = CON     -> j[2] = j[3] + 1
    [] j[1] = DIMSELF -> FALSE
    [] j[1] \in {ADDX, MULX} -> TRUE
    [] j[1] = SUBX    -> j[2] >= j[3]
    [] j[1] = OUTDIM  -> TRUE

(* ---- facts that the library states about supported dimensions ---- *)
Axiom(j) ==
  CASE j[1] = ADD -> j[2] \in Supported /\ j[3] \in Supported /\ Holds(j)
    [] j[1] = SUB -> j[2] \in Supported /\ j[3] \in Supported /\ Holds(j)
    [] j[1] = MUL -> j[2] \in Supported /\ j[3] \in Supported /\ Holds(j)
    [] j[1] = LT  -> j[2] \in 0..4 /\ j[3] \in 0..4 /\ Holds(j)
    [] j[1] = EQ  -> j[2] = j[3]
    [] j[1] = REP -> j[2] = j[3] /\ j[4] = j[2]
    [] j[1] = DIMSELF -> TRUE
    [] j[1] = OUTDIM -> IF j[2] = EQ THEN j[3] = j[4] ELSE j[3] \in Supported /\ j[4] \in Supported /\ (j[2] = SUB => j[3] >= j[4])
    [] OTHER -> FALSE

(* ---- what a judgment implies without knowing the dimensions ---- *)
Implied(j) ==
  CASE j[1] = CANMUL  -> {<<EQ, j[3], j[4]>>, <<EQ, j[4], j[3]>>}
    [] j[1] = CANTMUL -> {<<EQ, j[2], j[4]>>, <<EQ, j[4], j[2]>>}
    [] j[1] = EXT     -> {<<ADD, j[2], 1, j[3]>>, <<DIMSELF>>}
    [] j[1] = CON     -> {<<SUB, j[2], 1, j[3]>>, <<DIMSELF>>}
    [] j[1] = REP     -> {<<EQ, j[2], j[3]>>, <<OUTDIM, EQ, j[2], j[3]>>}
    [] j[1] = EQ      -> {<<OUTDIM, EQ, j[2], j[3]>>}
    [] j[1] = LT      -> {<<DIMSELF>>}
    [] j[1] \in {ADD, SUB, MUL} -> {<<DIMSELF>>, <<OUTDIM, j[1], j[2], j[3]>>}
    [] j[1] \in {ADDX, SUBX, MULX} -> {<<DIMSELF>>, <<OUTDIM, j[1] - 12, j[2], j[3]>>}
    [] OTHER -> {}
Elab1(H) == H \cup UNION {Implied(j) : j \in H}
Elab(H) == Elab1(Elab1(H))

(* ---- what must be derivable from hypotheses H about ShapeConstraint ---- *)
RECURSIVE Derives(_, _)
Derives(H, g) ==
  \/ g \in Elab(H)
  \/ Axiom(g)
  \/ g[1] = CANMUL  /\ Derives(H, <<EQ, g[3], g[4]>>) /\ Derives(H, <<EQ, g[4], g[3]>>)
  \/ g[1] = CANTMUL /\ Derives(H, <<EQ, g[2], g[4]>>) /\ Derives(H, <<EQ, g[4], g[2]>>)
  \/ g[1] = EXT     /\ Derives(H, <<ADD, g[2], 1, g[3]>>)
  \/ g[1] = CON     /\ Derives(H, <<SUB, g[2], 1, g[3]>>)

(* ---- what may be derivable: every instance that satisfies the hypotheses  *)
(* satisfies the goal ---- *)
Sub(j, v) == [i \in 1..Len(j) |-> IF i > 1 /\ j[i] >= 1000 THEN v[j[i] - 1000] ELSE j[i]]
Valuations == [1..4 -> 0..3]
Valid(H, g) == g[1] # DIMSELF /\ \A v \in Valuations : (\A h \in H : Holds(Sub(h, v))) => Holds(Sub(g, v))

(* ---- answers of the compiler ---- *)
(* result of an operation: <<>> when rejected, <<k>> when it yields Const<k> *)
OpOK(kind, exact, d, r) ==
  /\ r # <<>> => Len(r) = 1 /\ Num(d[1]) /\ Num(d[2]) /\ r[1] >= 0 /\ Holds(<<kind, d[1], d[2], r[1]>>)
  /\ exact /\ r = <<>> => \A k \in 0..16 : ~Axiom(<<kind, d[1], d[2], k>>)
(* user-defined dimensions are equal only to themselves *)
EqOK(exact, d, r) == IF d[1] = d[2] THEN r = <<d[1]>> \/ (~exact /\ r = <<>>) ELSE r = <<>>
Exactly(exact, b, r) == r = <<IF b THEN 1 ELSE 0>> \/ (~exact /\ r = <<0>>)

ShpPost(o, v, d, a, r) ==
  LET exact == v = "SC" IN
  CASE o = "add" -> OpOK(ADD, exact, d, r)
    [] o = "sub" -> OpOK(SUB, exact, d, r)
    [] o = "mul" -> OpOK(MUL, exact, d, r)
    [] o = "lt"  -> /\ r = <<1>> => Num(d[1]) /\ Num(d[2]) /\ d[1] < d[2]
                    /\ exact /\ r = <<0>> => ~(Num(d[1]) /\ Num(d[2]) /\ Axiom(<<LT, d[1], d[2]>>))
    [] o = "eq"  -> EqOK(exact, d, r)
    [] o = "canmul"  -> Exactly(exact, d[2] = d[3], r)
    [] o = "cantmul" -> Exactly(exact, d[1] = d[3], r)
    [] o = "ext" -> /\ r = <<1>> => Num(d[1]) /\ d[2] = d[1] + 1
                    /\ exact /\ r = <<0>> => ~(d[1] \in Supported /\ d[2] = d[1] + 1)
    [] o = "con" -> /\ r = <<1>> => Num(d[1]) /\ d[1] = d[2] + 1
                    /\ exact /\ r = <<0>> => ~(d[1] \in Supported /\ d[1] = d[2] + 1)
    [] o = "dimtype" -> r = <<1, 0, 0>>      \* is a dimension, size 0, no values
    [] o = "valtype" -> r = <<0>>            \* types with values are not dimensions
    (* a predicate can be stated of d[3] = 1: dimensions, 0: arbitrary types *)
    [] o = "formed" -> r = <<d[3]>>
    [] o = "entail" ->
         LET H == {a[i] : i \in 2..Len(a)}  g == a[1]  gen == d[1] = 1
             must == IF gen THEN g \in Elab(H) ELSE Derives(H, g)
         IN  IF must THEN r = <<1>> ELSE r = <<0>> \/ Valid(H, g)
    [] o = "compiles" -> r = <<1>>
=============================================================================
