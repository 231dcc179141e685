----------------------------- MODULE MC_Session ----------------------------
(* Every store of small objects and every call on it: calls that should undo *)
(* each other do, calls touch nothing but their target, and the products     *)
(* that programs rely on reassociate.                                        *)
EXTENDS Session
VARIABLES st, n
CONSTANTS Vals, Depth
vars == <<st, n>>
TabV == << Ob("v",2,1), Ob("v",2,1), Ob("p",2,1), Ob("p",2,1) >>
TabM == << Ob("m",2,2), Ob("m",2,2) >>
TabMV == << Ob("m",2,2), Ob("v",2,1), Ob("v",2,1) >>
TabR == << Ob("m",2,3), Ob("m",3,2) >>
TabC == << Ob("c",2,1), Ob("c",2,1), Ob("c",2,1) >>
TabQ == << Ob("q",4,1), Ob("q",4,1) >>
TabX == << Ob("v",3,1), Ob("v",3,1), Ob("q",4,1) >>
Bits == {0, 1}
Trits == {-1, 0, 1}
Odd == {-1, 0, 2}
Wide == {-2, -1, 0, 1, 2}
RECURSIVE Build(_)
Build(i) == IF i = 0 THEN {<<>>} ELSE {Append(x, y) : x \in Build(i - 1), y \in [1..Size(i) -> Vals]}
MayWrite == {"neg", "add", "sub", "copy", "tr", "trof", "conj", "conjof", "mul", "mulasg", "cross", "recast", "qvec", "contract"}
Init == n = 0 /\ st \in Build(Len(Tab))
Next == n < Depth /\ n' = n + 1 /\ \E o \in MayWrite : \E c \in Cands[o] : st' = After(st, o, c[1], c[2], <<>>)
Spec == Init /\ [][Next]_vars

Do(s0, o, t, s, p) == After(s0, o, t, s, p)
Typedness == /\ DOMAIN st = Ids
             /\ \A i \in Ids : Len(st[i]) = Size(i)
(* add and sub undo each other, whatever the operand (also itself: x - x = 0) *)
Undo == \A c \in Cands["add"] : LET t == c[1] s == c[2] IN
           /\ (s[1] # t => /\ Do(Do(st, "add", t, s, <<>>), "sub", t, s, <<>>) = st
                           /\ Do(Do(st, "sub", t, s, <<>>), "add", t, s, <<>>) = st)
           /\ (s[1] = t => Do(st, "sub", t, s, <<>>)[t] = [i \in 1..Size(t) |-> 0])
Involutions == /\ \A c \in Cands["neg"] : Do(Do(st, "neg", c[1], <<>>, <<>>), "neg", c[1], <<>>, <<>>) = st
               /\ \A c \in Cands["tr"] : Do(Do(st, "tr", c[1], <<>>, <<>>), "tr", c[1], <<>>, <<>>) = st
               /\ \A c \in Cands["conj"] : Do(Do(st, "conj", c[1], <<>>, <<>>), "conj", c[1], <<>>, <<>>) = st
               /\ \A c \in Cands["swaprow"] : \A i, j \in 0..(Tab[c[1]].R - 1) :
                    Do(Do(st, "swaprow", c[1], <<>>, <<i, j>>), "swaprow", c[1], <<>>, <<j, i>>) = st
               /\ \A c \in Cands["swapcol"] : \A i, j \in 0..(Tab[c[1]].C - 1) :
                    Do(Do(st, "swapcol", c[1], <<>>, <<i, j>>), "swapcol", c[1], <<>>, <<j, i>>) = st
(* swapping rows is swapping columns of the transpose *)
SwapTranspose == \A c \in Cands["tr"] : LET t == c[1] IN \A i, j \in 0..(Tab[t].R - 1) :
     Do(Do(st, "tr", t, <<>>, <<>>), "swapcol", t, <<>>, <<i, j>>) = Do(Do(st, "swaprow", t, <<>>, <<i, j>>), "tr", t, <<>>, <<>>)
(* (xy)^T = y^T x^T and conj(xy) = conj(y) conj(x), as programs over the store *)
Anti == /\ \A c \in Cands["mul"] : LET t == c[1] a == c[2][1] b == c[2][2] IN
           (Sq(t) /\ Sq(a) /\ Sq(b) /\ a # b) =>
              Do(Do(st, "mul", t, <<a, b>>, <<>>), "tr", t, <<>>, <<>>)[t]
              = Do(Do(Do(st, "tr", a, <<>>, <<>>), "tr", b, <<>>, <<>>), "mul", t, <<b, a>>, <<>>)[t]
        /\ \A c \in Cands["mul"] : LET t == c[1] a == c[2][1] b == c[2][2] IN
           (Kind(t) \in {"q", "c"} /\ a # b) =>
              Do(Do(st, "mul", t, <<a, b>>, <<>>), "conj", t, <<>>, <<>>)[t]
              = Do(Do(Do(st, "conj", a, <<>>, <<>>), "conj", b, <<>>, <<>>), "mul", t, <<b, a>>, <<>>)[t]
(* reading never writes; the norm of a product is the product of the norms *)
NormMul == \A c \in Cands["mul"] : LET t == c[1] a == c[2][1] b == c[2][2] IN
     Kind(t) \in {"q", "c"} => RDot(Do(st, "mul", t, <<a, b>>, <<>>)[t], Do(st, "mul", t, <<a, b>>, <<>>)[t]) = RDot(st[a], st[a]) * RDot(st[b], st[b])
DetMul == \A c \in Cands["mul"] : LET t == c[1] a == c[2][1] b == c[2][2] IN
     (Sq(t) /\ Sq(a) /\ Sq(b) /\ Tab[t].R = 2) =>
        Value(Do(st, "mul", t, <<a, b>>, <<>>), "det", <<t>>)[1] = Value(st, "det", <<a>>)[1] * Value(st, "det", <<b>>)[1]
(* linear action: A(x + y) = Ax + Ay *)
Linear == \A c \in Cands["mul"] : LET t == c[1] a == c[2][1] b == c[2][2] IN
     Kind(t) = "v" => \A d \in Ids : (Same(d, b) /\ d # b /\ t # d) =>
        Do(Do(st, "add", b, <<d>>, <<>>), "mul", t, <<a, b>>, <<>>)[t]
        = Plus(Do(st, "mul", t, <<a, b>>, <<>>)[t], Do(st, "mul", t, <<a, d>>, <<>>)[t])
(* the cross product is orthogonal to both factors and is the product of pure quaternions *)
CrossLaw == \A c \in Cands["cross"] : LET a == c[2][1] b == c[2][2] x == Do(st, "cross", c[1], <<a, b>>, <<>>)[c[1]] IN
     /\ RDot(x, st[a]) = 0 /\ RDot(x, st[b]) = 0
     /\ RQMul(<<0>> \o st[a], <<0>> \o st[b]) = <<0 - RDot(st[a], st[b])>> \o x
RoundTrips == /\ \A c \in Cands["qvec"] : Effect(Do(st, "qvec", c[1], c[2], <<>>), "qset", c[2][1], <<c[1]>>, <<st[c[2][1]][1]>>) = st[c[2][1]]
              /\ \A c \in Cands["recast"] : Do(Do(st, "recast", c[1], c[2], <<>>), "recast", c[2][1], <<c[1]>>, <<>>)[c[2][1]] = st[c[2][1]]
              /\ \A c \in Cands["trof"] : c[1] # c[2][1] => Do(Do(st, "trof", c[1], c[2], <<>>), "trof", c[2][1], <<c[1]>>, <<>>)[c[2][1]] = st[c[2][1]]
(* a step changes at most one object *)
Frame == [][Cardinality({i \in Ids : st[i] # st'[i]}) <= 1]_vars
=============================================================================
