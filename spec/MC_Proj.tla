------------------------------ MODULE MC_Proj ------------------------------
(* Laws of the projection specification over a small field.                  *)
EXTENDS Proj, FiniteSets
VARIABLES vol, pt
CONSTANT Wide
vars == <<vol, pt>>
(* view volumes with non-degenerate sides *)
Far == IF Wide THEN 2..4 ELSE 3..3
OkVol(v) == Fadd(v[1], v[2]) # 0 /\ Fadd(v[3], v[4]) # 0 /\ v[5] # v[6] /\ v[5] # 0 /\ v[6] # 0
Pts == {<<x, y, z>> : x \in 0..(IF Wide THEN 2 ELSE 1), y \in 0..1, z \in 1..(IF Wide THEN 3 ELSE 2)}
Init == vol = <<1, 1, 1, 1, 1, 2>> /\ pt = <<0, 0, 1>>
Next == \/ vol = <<1, 1, 1, 1, 1, 2>> /\ \E a, b, c, d \in 0..2, n \in 1..2, f \in Far :
             vol' = <<a, b, c, d, n, f>> /\ OkVol(vol') /\ pt' = pt
        \/ pt = <<0, 0, 1>> /\ pt' \in Pts /\ vol' = vol
Spec == Init /\ [][Next]_vars
(* the matrices of Proj are the ones that map the volume to the cube *)
Match == IsPersp(PerspMat(vol), vol) /\ IsOrtho(OrthoMat(vol), vol)
Regular == Det(PerspMat(vol), 4) # 0 /\ Det(OrthoMat(vol), 4) # 0
(* an entry moved is an entry noticed *)
Tight == \A k \in 1..16 : /\ ~IsPersp([PerspMat(vol) EXCEPT ![k] = Fadd(@, 1)], vol)
                          /\ ~IsOrtho([OrthoMat(vol) EXCEPT ![k] = Fadd(@, 1)], vol)
(* the eye is the vanishing point: points on a ray through it project alike *)
Rays == \A s \in {2, 3} : LET x == MatVec(PerspMat(vol), Append(pt, 1), 4, 4)
                              y == MatVec(PerspMat(vol), Append(VScale(pt, s), 1), 4, 4) IN
        (x[4] # 0 /\ y[4] # 0) => Fmul(x[1], y[4]) = Fmul(y[1], x[4]) /\ Fmul(x[2], y[4]) = Fmul(y[2], x[4])
Parallel == LET m == OrthoMat(vol) IN \A z \in 1..3 :
            MatVec(m, <<pt[1], pt[2], z, 1>>, 4, 4)[1] = MatVec(m, Append(pt, 1), 4, 4)[1]
(* symmetric volumes keep the view axis *)
Symmetric == (vol[1] = vol[2] /\ vol[3] = vol[4]) => MatVec(PerspMat(vol), <<0, 0, pt[3], 1>>, 4, 4)[1] = 0
(* a field-of-view volume is symmetric with the ratio asked for *)
Fov == \A g \in 1..3, asp \in 1..3 : LET v == FovVol(g, asp, 1, 2) IN
       v[1] = v[2] /\ v[3] = v[4] /\ Fmul(asp, Fadd(v[3], v[4])) = Fadd(v[1], v[2])
       /\ (\E r \in F : ProjPost("aspect", <<>>, <<v>>, <<r>>)) 
(* projecting and unprojecting are mutually inverse and single-valued *)
All3 == {<<x, y, z>> : x \in F, y \in F, z \in F}
Inverts == vol = <<1, 1, 1, 1, 1, 2>> =>
           LET im == {r \in All3 : ProjPost("op", <<>>, <<vol, pt>>, r)}
               ip == {r \in All3 : ProjPost("pp", <<>>, <<vol, pt>>, r)} IN
           /\ Cardinality(im) = 1 /\ {r \in All3 : \E x \in im : ProjPost("uop", <<>>, <<vol, x>>, r)} = {pt}
           /\ Cardinality(ip) = 1 /\ {r \in All3 : \E x \in ip : ProjPost("upp", <<>>, <<vol, x>>, r)} = {pt}
=============================================================================
