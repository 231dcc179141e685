----------------------------- MODULE MC_Layout -----------------------------
(* One memory of cells seen through several views at once: flat slice,       *)
(* column array, row/column access, named component.  Writes go through any   *)
(* view; every view reads what was written last.                              *)
EXTENDS Layout, FiniteSets
VARIABLES mem, at, val
CONSTANTS R, C
vars == <<mem, at, val>>
N == R * C
Cell(r, c) == (c - 1) * R + r
Init == mem = [i \in 1..N |-> i] /\ at = 1 /\ val = 1
WriteFlat == \E k \in 1..N, x \in 90..91 : mem' = Write(mem, k, x) /\ at' = k /\ val' = x
WriteRC == \E r \in 1..R, c \in 1..C, x \in 92..92 : mem' = Write(mem, Cell(r, c), x) /\ at' = Cell(r, c) /\ val' = x
WriteCol == \E c \in 1..C, x \in 93..93 : mem' = WriteRange(mem, Cell(1, c), Cell(R, c), [i \in 1..N |-> x]) /\ at' = Cell(1, c) /\ val' = x
Swap == \E i, j \in 1..C : mem' = SwapCols(mem, R, C, i, j) /\ at' = 1 /\ val' = mem'[1]
Fresh == Cardinality({i \in 1..N : mem[i] > 89}) < 3
Next == Fresh /\ (WriteFlat \/ WriteRC \/ WriteCol \/ Swap)
Spec == Init /\ [][Next]_vars
ReadsBack == mem[at] = val
ViewsAgree == \A r \in 1..R, c \in 1..C : /\ At(mem, R, r, c) = mem[Cell(r, c)]
                                            /\ Col(mem, R, c)[r] = mem[Cell(r, c)] /\ Row(mem, R, C, r)[c] = mem[Cell(r, c)]
                                            /\ LayPost("field", <<R, C, c - 1, r - 1>>, <<mem>>, <<mem[Cell(r, c)]>>)
                                            /\ SubSeq(mem, Cell(1, c), Cell(R, c)) = Col(mem, R, c)
SizeLaw == Len(mem) = N /\ \A r \in 1..R, c \in 1..C : Cell(r, c) \in 1..N /\ \A r2 \in 1..R, c2 \in 1..C : Cell(r, c) = Cell(r2, c2) => <<r, c>> = <<r2, c2>>
(* a single write touches one cell *)
Frame == [][(\E k \in 1..N, x \in 90..92 : mem' = Write(mem, k, x)) => Cardinality({k \in 1..N : mem'[k] # mem[k]}) <= 1]_vars
Swizzles == \A i, j \in 1..N : Select(mem, <<i, j>>) = <<mem[i], mem[j]>> /\ Select(Select(mem, <<i, j>>), <<2, 1>>) = Select(mem, <<j, i>>)
=============================================================================
