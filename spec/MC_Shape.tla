------------------------------ MODULE MC_Shape -----------------------------
(* A generic program instantiated at some dimensions: it starts from one     *)
(* hypothesis (a where-clause that holds at the instantiation) and derives   *)
(* judgments step by step with the library's rules.  Nothing false can be    *)
(* derived, and the derived shapes compose as linear algebra needs.          *)
EXTENDS Shape
VARIABLES known, steps
CONSTANTS MaxSteps, Top
Dims == 0..Top
Judgments ==
  {<<k, a, b, c>> : k \in {ADD, SUB, MUL, REP}, a \in Dims, b \in Dims, c \in 0..Top}
  \cup {<<k, a, b>> : k \in {LT, EQ, EXT, CON}, a \in Dims, b \in Dims}
  \cup {<<k, a, b, c, d>> : k \in {CANMUL, CANTMUL}, a \in 1..3, b \in 0..3, c \in 0..3, d \in 1..3}
vars == <<known, steps>>
Init == steps = 0 /\ known \in {{j} : j \in {x \in Judgments : Holds(x)}}
Elaborate == \E j \in known : \E i \in Implied(j) : i \notin known /\ i[1] \notin {DIMSELF, OUTDIM} /\ known' = known \cup {i}
UseImpl == \E j \in Judgments : j \notin known /\ j[1] \in {EXT, CON, CANMUL, CANTMUL}
              /\ (\E k \in known : \E i \in 2..Len(k) : k[i] = j[2])
              /\ Derives(known, j) /\ known' = known \cup {j}
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Elaborate \/ UseImpl)
Spec == Init /\ [][Next]_vars
Sound == \A j \in known : Holds(j)
(* chains of products keep conforming: (a x b)(b x c) then times (c x d) *)
Chain == \A j \in known : j[1] = CANMUL => \A e \in {2, 3} : Derives(known, <<CANMUL, e, j[3], j[4], e>>)
RoundTrip == \A j \in known : j[1] = EXT /\ j[3] \in Supported /\ j[2] \in Supported => Derives(known, <<CON, j[3], j[2]>>)
=============================================================================
