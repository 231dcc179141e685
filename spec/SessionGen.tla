----------------------------- MODULE SessionGen ----------------------------
(* Client programs, as behaviours of Session: run with -simulate, it prints  *)
(* the calls; the conformance driver replays them on the library.            *)
EXTENDS Session, Json
VARIABLES st, n
CONSTANT Bound
vars == <<st, n>>
Out(o, t, s, p) == PrintT(ToJson(<<o, t, s, p>>))
Fits(x) == \A i \in DOMAIN x : Abs(x[i]) <= Bound
Rnd(S) == RandomElement(S)
RndSeq(ss) == [i \in 1..Len(ss) |-> Rnd(ss[i])]

Init == n = 0 /\ st = <<>>
Fill == n = 0 /\ n' = 1 /\ \E f \in {TLCEval([i \in 1..Len(Flat([j \in 1..Len(Tab) |-> [k \in 1..Size(j) |-> 0]])) |-> Rnd(-9..9)])} :
           st' = Cut(f) /\ Out("init", 0, <<>>, f)
Call == n > 0 /\ n' = n + 1 /\
  \E o \in {Rnd(Ops)} :
  \E c \in {Rnd(Cands[o])} :
  \E p \in {TLCEval(RndSeq(Params(st, o, c[1], c[2])))} :
  \E route \in {Rnd(0..3)} :
    IF o \in Reads THEN st' = st /\ Out(o, 0, c[2], p \o <<route>>)
    ELSE LET y == TLCEval(Effect(st, o, c[1], c[2], p)) IN
      IF Fits(y) THEN st' = [st EXCEPT ![c[1]] = y] /\ Out(o, c[1], c[2], p \o <<route>>)
      ELSE \E w \in {TLCEval(RndSeq(Params(st, "set", c[1], <<>>)))} :
             st' = [st EXCEPT ![c[1]] = w] /\ Out("set", c[1], <<>>, w \o <<route>>)
Next == Fill \/ Call
Spec == Init /\ [][Next]_vars
=============================================================================
