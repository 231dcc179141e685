------------------------------- MODULE Show --------------------------------
(* What a printed value says: its type, its dimensions and every component,  *)
(* in storage order (matrices column by column).  Components are given as    *)
(* the strings the scalar type itself prints.                                *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Joined(Tail(s))
Lst(s) == "[" \o Joined(s) \o "]"
N2S(n) == ToString(n)
ShVec(s) == "Vector" \o N2S(Len(s)) \o " " \o Lst(s)
ShPnt(s) == "Point" \o N2S(Len(s)) \o " " \o Lst(s)
(* m: sequence of columns *)
ShMat(m) == "Matrix" \o N2S(Len(m[1])) \o "x" \o N2S(Len(m)) \o " " \o Lst([c \in 1..Len(m) |-> Lst(m[c])])
ShRot(m) == "Rotation" \o N2S(Len(m)) \o " [" \o ShMat(m) \o "]"
ShTra(v) == "Translation" \o N2S(Len(v)) \o " " \o ShVec(v)
Cols(flat, n) == [c \in 1..(Len(flat) \div n) |-> SubSeq(flat, (c - 1) * n + 1, c * n)]
Shown(o, a) ==
  CASE o \in {"Vector", "UnitVector"} -> ShVec(a[1])
    [] o = "Point" -> ShPnt(a[1])
    [] o = "Matrix" -> ShMat(a)
    [] o \in {"Complex", "UnitComplex"} -> a[1][1] \o " + i" \o a[1][2]
    [] o \in {"Quaternion", "UnitQuaternion"} -> a[1][1] \o " + " \o Lst(Tail(a[1]))
    [] o = "Degrees" -> a[1][1] \o " degrees"
    [] o = "Radians" -> a[1][1] \o " radians"
    [] o = "EulerRadians" -> "Euler [roll=" \o a[1][1] \o " radians, yaw=" \o a[1][2] \o " radians, pitch=" \o a[1][3] \o " radians]"
    [] o = "EulerDegrees" -> "Euler [roll=" \o a[1][1] \o " degrees, yaw=" \o a[1][2] \o " degrees, pitch=" \o a[1][3] \o " degrees]"
    [] o = "Translation" -> ShTra(a[1])
    [] o = "Scale" -> "Scale" \o N2S(Len(a[1])) \o " [" \o ShVec(a[1]) \o "]"
    [] o = "Rotation" -> ShRot(a)
    [] o = "Reflection" -> "Reflection" \o N2S(Len(a[1])) \o " [normal = " \o ShVec(a[1]) \o ", bias = " \o ShPnt(a[2]) \o "]"
    [] o = "Shear" -> "Shear" \o N2S(Len(a[2])) \o " [shear_factor=" \o a[1][1] \o ", origin=" \o ShPnt(a[2]) \o ", direction=" \o ShVec(a[3]) \o ", normal=" \o ShVec(a[4]) \o "]"
    [] o = "Isometry" -> "Isometry" \o N2S(Len(a[1])) \o " [rotation=" \o ShRot(Tail(a)) \o ", translation=" \o ShTra(a[1]) \o "]"
    [] o = "Similarity" -> "Similarity" \o N2S(Len(a[2])) \o " [scale=" \o a[1][1] \o ", rotation=" \o ShRot(SubSeq(a, 3, Len(a))) \o ", translation=" \o ShVec(a[2]) \o "]"
    [] o = "Transform" -> "Transform" \o N2S(Len(a) - 1) \o " [" \o ShMat(a) \o "]"
    [] o = "Perspective" -> "Perspective3 [" \o ShMat(a) \o "]"
    [] o = "Orthographic" -> "Orthographic3 [" \o ShMat(a) \o "]"
ShowPost(o, a, r) == r = <<Shown(o, a)>>
=============================================================================
