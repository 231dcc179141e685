------------------------------- MODULE Homog -------------------------------
(* Homogeneous coordinates. *)
EXTENDS Mat

HomPost(o, d, a, r) ==
  CASE o = "extend"   -> r = Append(a[1], a[2][1])
    [] o = "contract" -> r = Front(a[1])
    [] o = "tov"      -> r = Append(a[1], 0)
    [] o = "top"      -> r = Append(a[1], 1 % P)
    [] o = "id"       -> r = a[1]
    [] o = "fromv"    -> IF Last(a[1]) = 0 THEN r = Front(a[1]) ELSE r = <<>>
    [] o = "fromp"    -> IF Last(a[1]) = 0 THEN r = <<>>
                         ELSE Len(r) = d[1] - 1 /\ IsScalars(r) /\ VScale(r, Last(a[1])) = Front(a[1])
    [] o = "actv"     -> r = Append(MatVec(a[1], a[2], d[1], d[1]), 0)
    [] o = "actp"     -> r = Append(MatVec(a[1], a[2], d[1], d[1]), 1 % P)
=============================================================================
