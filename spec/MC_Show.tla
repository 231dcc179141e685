------------------------------ MODULE MC_Show ------------------------------
(* Laws of the printed form: it tells any two values of a kind apart, and    *)
(* values of different kinds or dimensions apart.                            *)
EXTENDS Show
CONSTANTS Words, MaxN
VARIABLES v, w
vars == <<v, w>>
Tup(n) == [1..n -> Words]
All == UNION {Tup(n) : n \in 1..MaxN}
Init == v = <<>> /\ w = <<>>
Grow(x) == IF Len(x) >= MaxN THEN {} ELSE {Append(x, c) : c \in Words}
Next == \/ v' \in Grow(v) /\ w' = w
        \/ w' \in Grow(w) /\ v' = v
Spec == Init /\ [][Next]_vars
Ok == v # <<>> /\ w # <<>>
Faithful == Ok => /\ (ShVec(v) = ShVec(w)) <=> (v = w)
                  /\ (ShPnt(v) = ShPnt(w)) <=> (v = w)
                  /\ ShVec(v) # ShPnt(w)
                  /\ Len(v) = Len(w) => /\ Shown("Reflection", <<v, w>>) = Shown("Reflection", <<w, v>>) <=> v = w
                                        /\ ShMat(<<v, w>>) = ShMat(<<w, v>>) <=> v = w
                                        /\ Shown("Shear", <<<<"1">>, v, w, w>>) = Shown("Shear", <<<<"1">>, w, v, v>>) <=> v = w
MatrixFaithful == Len(v) >= 2 /\ Len(v) % 2 = 0 /\ Len(w) >= 2 /\ Len(w) % 2 = 0 =>
                     /\ (ShMat(Cols(v, 2)) = ShMat(Cols(w, 2))) <=> (v = w)
                     /\ Len(v) = 4 /\ Len(w) = 4 => (Shown("Rotation", Cols(v, 2)) = Shown("Rotation", Cols(w, 2))) <=> (v = w)
(* the same components as different shapes print differently *)
Shapes == Len(v) = 4 => /\ ShMat(Cols(v, 1)) # ShMat(Cols(v, 2))
                        /\ ShMat(Cols(v, 4)) # ShMat(Cols(v, 2))
                        /\ ShMat(Cols(v, 4)) # ShVec(v)
Structure == Len(v) = 2 /\ Len(w) = 2 =>
     /\ Shown("Complex", <<v>>) = Shown("Complex", <<w>>) <=> v = w
     /\ Shown("Degrees", <<v>>) # Shown("Radians", <<w>>)
     /\ Shown("Translation", <<v>>) # Shown("Scale", <<v>>)
=============================================================================
