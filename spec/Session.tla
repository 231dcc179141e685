------------------------------ MODULE Session ------------------------------
(* A client program: typed objects in a store, and the calls that read them  *)
(* or overwrite one of them.  Objects are numbered; Tab says what each one   *)
(* is.  Components are plain integers, column by column for matrices, scalar *)
(* part first for quaternions.                                               *)
EXTENDS Frm, FiniteSets
CONSTANT Tab         \* sequence of [k |-> kind, R |-> rows, C |-> columns]

Ob(k, R, C) == [k |-> k, R |-> R, C |-> C]
FullTable == << Ob("v",1,1), Ob("v",2,1), Ob("v",2,1), Ob("v",3,1), Ob("v",3,1), Ob("v",4,1), Ob("v",4,1),
                Ob("p",2,1), Ob("p",2,1), Ob("p",3,1), Ob("p",3,1),
                Ob("m",2,2), Ob("m",2,2), Ob("m",3,3), Ob("m",3,3), Ob("m",2,3), Ob("m",3,2),
                Ob("m",4,4), Ob("m",4,4), Ob("m",3,4),
                Ob("q",4,1), Ob("q",4,1), Ob("c",2,1), Ob("c",2,1) >>
Ids == DOMAIN Tab
Size(i) == Tab[i].R * Tab[i].C
Same(i, j) == Tab[i] = Tab[j]
Kind(i) == Tab[i].k
(* j can be added to i *)
Addable(i, j) == IF Kind(i) = "p" THEN Kind(j) = "v" /\ Tab[j].R = Tab[i].R ELSE Same(i, j)
Sq(i) == Kind(i) = "m" /\ Tab[i].R = Tab[i].C
K1 == {"v", "p", "m", "q", "c"}

(* which objects each call can be applied to: target and sources *)
Writes(o) ==
  CASE o \in {"set", "setel", "smul", "neg", "sdiv", "srem"} -> {<<i, <<>>>> : i \in Ids}
    [] o = "copy"    -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o \in {"add", "sub"}     -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o \in {"addto", "subto"} -> {<<i, <<j, k>>>> : i \in Ids, j \in Ids, k \in Ids}
    [] o = "psub"    -> {<<i, <<j, k>>>> : i \in Ids, j \in Ids, k \in Ids}
    [] o = "cmul"    -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o \in {"swaprow", "swapcol", "swapel", "tr"} -> {<<i, <<>>>> : i \in Ids}
    [] o = "trof"    -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o = "conj"    -> {<<i, <<>>>> : i \in Ids}
    [] o = "conjof"  -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o = "mul"     -> {<<i, <<j, k>>>> : i \in Ids, j \in Ids, k \in Ids}
    [] o = "mulasg"  -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o \in {"colset", "getcol", "getrow", "extend", "contract", "qvec", "qset", "recast"} -> {<<i, <<j>>>> : i \in Ids, j \in Ids}
    [] o = "cross"   -> {<<i, <<j, k>>>> : i \in Ids, j \in Ids, k \in Ids}
    [] o \in {"normsq", "trace", "det", "iszero"} -> {<<0, <<j>>>> : j \in Ids}
    [] o \in {"dot", "eq"}    -> {<<0, <<j, k>>>> : j \in Ids, k \in Ids}
Typed(o, t, s) ==
  CASE o \in {"set", "setel", "smul", "neg"} -> TRUE
    [] o \in {"sdiv", "srem"} -> TRUE
    [] o = "copy"    -> Same(t, s[1])
    [] o \in {"add", "sub"} -> Addable(t, s[1])
    [] o \in {"addto", "subto"} -> Same(t, s[1]) /\ Addable(t, s[2])
    [] o = "psub"    -> Kind(t) = "v" /\ Kind(s[1]) = "p" /\ Same(s[1], s[2]) /\ Tab[t].R = Tab[s[1]].R
    [] o = "cmul"    -> Kind(t) \in {"v", "m"} /\ Same(t, s[1])
    [] o \in {"swaprow", "swapcol", "swapel"} -> Kind(t) = "m"
    [] o = "tr"      -> Sq(t)
    [] o = "trof"    -> Kind(t) = "m" /\ Kind(s[1]) = "m" /\ Tab[t].R = Tab[s[1]].C /\ Tab[t].C = Tab[s[1]].R
    [] o = "conj"    -> Kind(t) \in {"q", "c"}
    [] o = "conjof"  -> Kind(t) \in {"q", "c"} /\ Same(t, s[1])
    [] o = "mul"     -> \/ Kind(t) \in {"q", "c"} /\ Same(t, s[1]) /\ Same(t, s[2])
                        \/ /\ Kind(t) \in {"m", "v"} /\ Kind(s[1]) = "m" /\ Kind(s[2]) = Kind(t)
                           /\ Tab[t].R = Tab[s[1]].R /\ Tab[s[1]].C = Tab[s[2]].R /\ Tab[t].C = Tab[s[2]].C
    [] o = "mulasg"  -> Kind(t) = "c" /\ Same(t, s[1])
    [] o = "colset"  -> Kind(t) = "m" /\ Kind(s[1]) = "v" /\ Tab[t].R = Tab[s[1]].R
    [] o = "getcol"  -> Kind(t) = "v" /\ Kind(s[1]) = "m" /\ Tab[t].R = Tab[s[1]].R
    [] o = "getrow"  -> Kind(t) = "v" /\ Kind(s[1]) = "m" /\ Tab[t].R = Tab[s[1]].C
    [] o = "cross"   -> Kind(t) = "v" /\ Tab[t].R = 3 /\ Same(t, s[1]) /\ Same(t, s[2])
    [] o = "extend"  -> Kind(t) = "v" /\ Kind(s[1]) = "v" /\ Tab[t].R = Tab[s[1]].R + 1
    [] o = "contract" -> Kind(t) = "v" /\ Kind(s[1]) = "v" /\ Tab[t].R = Tab[s[1]].R - 1
    [] o = "qvec"    -> Kind(t) = "v" /\ Tab[t].R = 3 /\ Kind(s[1]) = "q"
    [] o = "qset"    -> Kind(t) = "q" /\ Kind(s[1]) = "v" /\ Tab[s[1]].R = 3
    [] o = "recast"  -> {Kind(t), Kind(s[1])} = {"v", "p"} /\ Tab[t].R = Tab[s[1]].R
    [] o = "normsq"  -> Kind(s[1]) \in {"v", "q", "c", "p"}
    [] o = "trace"   -> Sq(s[1])
    [] o = "det"     -> Sq(s[1]) /\ Tab[s[1]].R = 2
    [] o = "iszero"  -> Kind(s[1]) \in {"v", "m", "q", "c"}
    [] o = "dot"     -> Kind(s[1]) \in {"v", "p", "q"} /\ Same(s[1], s[2])
    [] o = "eq"      -> Same(s[1], s[2])
Ops == {"set", "setel", "copy", "add", "sub", "addto", "subto", "psub", "smul", "sdiv", "srem", "neg", "cmul",
        "swaprow", "swapcol", "swapel", "tr", "trof", "conj", "conjof", "mul", "mulasg", "colset", "getcol", "getrow",
        "cross", "extend", "contract", "qvec", "qset", "recast", "normsq", "trace", "det", "iszero", "dot", "eq"}
Reads == {"normsq", "trace", "det", "iszero", "dot", "eq"}
Cands == [o \in Ops |-> {c \in Writes(o) : Typed(o, c[1], c[2])}]

(* parameters of a call: p[1], p[2] as below; a last one says through which  *)
(* of several equivalent entry points the call is made                       *)
Small == {-3, -2, -1, 0, 1, 2, 3}
Divisors(x) == {k \in {-7, -5, -3, -2, -1, 1, 2, 3, 5, 7} : \A i \in DOMAIN x : x[i] % Abs(k) = 0}
Params(st, o, t, s) ==
  CASE o = "set"     -> [i \in 1..Size(t) |-> -9..9]
    [] o = "setel"   -> <<0..(Size(t) - 1), -9..9>>
    [] o = "smul"    -> <<Small>>
    [] o = "sdiv"    -> <<Divisors(st[t])>>
    [] o = "srem"    -> <<{-7, -5, -3, 2, 3, 5, 9}>>
    [] o = "swaprow" -> <<0..(Tab[t].R - 1), 0..(Tab[t].R - 1)>>
    [] o = "swapcol" -> <<0..(Tab[t].C - 1), 0..(Tab[t].C - 1)>>
    [] o = "swapel"  -> <<0..(Tab[t].C - 1), 0..(Tab[t].R - 1), 0..(Tab[t].C - 1), 0..(Tab[t].R - 1)>>
    [] o = "colset"  -> <<0..(Tab[t].C - 1)>>
    [] o = "getcol"  -> <<0..(Tab[s[1]].C - 1)>>
    [] o = "getrow"  -> <<0..(Tab[s[1]].R - 1)>>
    [] o = "extend"  -> <<-9..9>>
    [] o = "qset"    -> <<-9..9>>
    [] OTHER         -> <<>>

SSwap(x, i, j) == [x EXCEPT ![i] = x[j], ![j] = x[i]]
SRow(x, R, i) == [j \in 1..(Len(x) \div R) |-> EAt(x, R, i, j)]
SCol(x, R, j) == SubSeq(x, (j - 1) * R + 1, j * R)
TrOf(x, R, C) == [e \in 1..(R * C) |-> EAt(x, R, ((e - 1) \div C) + 1, ((e - 1) % C) + 1)]
ConjOf(x) == [i \in 1..Len(x) |-> IF i = 1 THEN x[1] ELSE 0 - x[i]]
Plus(x, y) == Ew(LAMBDA u, v : u + v, x, y)
Minus(x, y) == Ew(LAMBDA u, v : u - v, x, y)

(* the components of the target afterwards *)
Effect(st, o, t, s, p) ==
  LET x == st[t]
      a == st[s[1]]
      b == st[s[2]]
      R == Tab[t].R
      C == Tab[t].C
  IN
  CASE o = "set"     -> SubSeq(p, 1, Size(t))
    [] o = "setel"   -> [x EXCEPT ![p[1] + 1] = p[2]]
    [] o \in {"copy", "recast"} -> a
    [] o = "add"     -> Plus(x, a)
    [] o = "sub"     -> Minus(x, a)
    [] o = "addto"   -> Plus(a, b)
    [] o \in {"subto", "psub"} -> Minus(a, b)
    [] o = "smul"    -> [i \in 1..Len(x) |-> x[i] * p[1]]
    [] o = "sdiv"    -> [i \in 1..Len(x) |-> TDiv(x[i], p[1])]
    [] o = "srem"    -> [i \in 1..Len(x) |-> TRem(x[i], p[1])]
    [] o = "neg"     -> [i \in 1..Len(x) |-> 0 - x[i]]
    [] o = "cmul"    -> Ew(LAMBDA u, v : u * v, x, a)
    [] o = "swaprow" -> [e \in 1..Len(x) |-> LET i == ((e - 1) % R)
                                                 j == ((e - 1) \div R) + 1
                                             IN EAt(x, R, 1 + (IF i = p[1] THEN p[2] ELSE IF i = p[2] THEN p[1] ELSE i), j)]
    [] o = "swapcol" -> [e \in 1..Len(x) |-> LET i == ((e - 1) % R) + 1
                                                 j == ((e - 1) \div R)
                                             IN EAt(x, R, i, 1 + (IF j = p[1] THEN p[2] ELSE IF j = p[2] THEN p[1] ELSE j))]
    [] o = "swapel"  -> SSwap(x, p[1] * R + p[2] + 1, p[3] * R + p[4] + 1)
    [] o = "tr"      -> TrOf(x, R, C)
    [] o = "trof"    -> TrOf(a, C, R)
    [] o = "conj"    -> ConjOf(x)
    [] o = "conjof"  -> ConjOf(a)
    [] o = "mul"     -> CASE Kind(t) = "q" -> RQMul(a, b)
                          [] Kind(t) = "c" -> RCMul(a, b)
                          [] OTHER -> RMat(a, b, R, Tab[s[1]].C, C)
    [] o = "mulasg"  -> RCMul(x, a)
    [] o = "colset"  -> [e \in 1..Len(x) |-> IF (e - 1) \div R = p[1] THEN a[((e - 1) % R) + 1] ELSE x[e]]
    [] o = "getcol"  -> SCol(a, R, p[1] + 1)
    [] o = "getrow"  -> SRow(a, Tab[s[1]].R, p[1] + 1)
    [] o = "cross"   -> << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
    [] o = "extend"  -> Append(a, p[1])
    [] o = "contract" -> SubSeq(a, 1, Len(a) - 1)
    [] o = "qvec"    -> <<a[2], a[3], a[4]>>
    [] o = "qset"    -> <<p[1], a[1], a[2], a[3]>>

(* what a reading call returns *)
RDot(x, y) == RSum(Len(x), LAMBDA i : x[i] * y[i])
Value(st, o, s) ==
  LET a == st[s[1]]
      b == st[s[2]]
      R == Tab[s[1]].R
  IN
  CASE o = "normsq" -> <<RDot(a, a)>>
    [] o = "dot"    -> <<RDot(a, b)>>
    [] o = "trace"  -> <<RSum(R, LAMBDA i : EAt(a, R, i, i))>>
    [] o = "det"    -> <<a[1] * a[4] - a[2] * a[3]>>
    [] o = "iszero" -> B(\A i \in DOMAIN a : a[i] = 0)
    [] o = "eq"     -> B(a = b)

(* one call: the new store *)
After(st, o, t, s, p) == IF o \in Reads THEN st ELSE [st EXCEPT ![t] = Effect(st, o, t, s, p)]
Flat(st) == FlattenSeq(st)
Cut(flat) == [i \in Ids |-> LET before == FoldLeft(LAMBDA acc, j : acc + Size(j), 0, [j \in 1..(i - 1) |-> j])
                            IN SubSeq(flat, before + 1, before + Size(i))]
(* the recorded call e takes st to nx *)
SesCall(e, st, nx) ==
  IF e.o = "init" THEN nx = Cut(e.a[1]) /\ e.r = e.a[1]
  ELSE /\ Typed(e.o, e.t, e.a[1])
       /\ nx = After(st, e.o, e.t, e.a[1], e.a[2])
       /\ e.x = IF e.o \in Reads THEN Value(st, e.o, e.a[1]) ELSE <<>>
       /\ e.r = Flat(nx)
=============================================================================
