-------------------------------- MODULE Lib --------------------------------
(* The library as a state machine.  A client program holds objects in a      *)
(* store; every public call is one step that reads objects, returns a value  *)
(* and possibly overwrites exactly one object.                               *)
EXTENDS Layout, Shape, Typing, Proj, Ang, Nrm, Cast, Apx, Spc, Sfn, Show, Session, XSession

VARIABLE store       \* object id -> components of the object

(* e.f: family, e.o: operation, e.d: static parameters, e.a: arguments,      *)
(* e.r: what the call returned                                               *)
Allowed(e) ==
  CASE e.f = "vec" -> VecPost(e.o, e.d, e.a, e.r)
    [] e.f = "mat" -> MatPost(e.o, e.d, e.a, e.r)
    [] e.f = "lay" -> LayPost(e.o, e.d, e.a, e.r)
    [] e.f = "cpx" -> CpxPost(e.o, e.d, e.a, e.r)
    [] e.f = "quat" -> QuatPost(e.o, e.d, e.a, e.r)
    [] e.f = "rot" -> RotPost(e.o, e.d, e.a, e.r)
    [] e.f = "tf"  -> XformPost(e.o, e.d, e.a, e.r)
    [] e.f = "prj" -> ProjPost(e.o, e.d, e.a, e.r)
    [] e.f = "ang" -> AngPost(e.o, e.d, e.a, e.r)
    [] e.f = "nrm" -> NrmPost(e.o, e.d, e.a, e.r)
    [] e.f = "cst" -> CastPost(e.o, e.d, e.a, e.r)
    [] e.f = "apx" -> ApxPost(e.o, e.d, e.a, e.r)
    [] e.f = "frm" -> FrmPost(e.o, e.d, e.a, e.r)
    [] e.f = "hom" -> HomPost(e.o, e.d, e.a, e.r)
    [] e.f = "typ" -> TypPost(e.o, e.d, e.a, e.r)
    [] e.f = "spc" -> SpcPost(e.o, e.v, e.d, e.a, e.r)
    [] e.f = "sfn" -> SfnPost(e.o, e.v, e.s, e.d, e.a, e.r)
    [] e.f = "shw" -> ShowPost(e.o, e.a, e.r)
    [] e.f = "shp" -> ShpPost(e.o, e.v, e.d, e.a, e.r)

(* Behaviour of the current code that is known to deviate (KNOWN_FINDINGS);  *)
(* each disjunct describes one finding exactly.                              *)
KnownFinding(e) ==
  (* Quaternion::polar_decomposition returns half the angle it documents, so  *)
  (* recombining yields |q| times the square root of q/|q|                    *)
  IF e.f = "quat" /\ e.o = "polarrt" /\ QGood(e.r) /\ QMul(e.r, e.r) = VScale(e.a[1], e.a[2][1])
     THEN "quaternion-polar-half-angle"
  (* Matrix4x4::look_*_inv rotate the eye they should translate to           *)
  ELSE IF e.f = "rot" /\ e.o = "lookaff" /\ e.d[2] = 1 /\ e.v \in {"m4to", "m4at"}
          /\ IsLookAffInvBug(e.r, e.a[4], e.a[1], e.a[3][1], e.a[2], e.a[3][2], e.d[1])
     THEN "matrix4-look-inv"
  ELSE IF e.f = "tf" /\ e.v = "shear" /\ IsShearVectorBug(e.o, e.d, e.a, e.r)
     THEN "shear-vector-origin"
  ELSE IF e.f = "frm" /\ IsScalarMinusComplexBug(e.o, e.d, e.a, e.r)
     THEN "scalar-minus-complex"
  ELSE "none"

PureCall(e) == Allowed(e) /\ UNCHANGED store
=============================================================================
