------------------------------- MODULE Vec -------------------------------
(* Vectors of R^3 and rotations *)
EXTENDS FP, Sequences
VAdd(a, b)  == <<a[1] ++ b[1], a[2] ++ b[2], a[3] ++ b[3]>>
VSub(a, b)  == <<a[1] -- b[1], a[2] -- b[2], a[3] -- b[3]>>
VScale(s, a)== <<s ** a[1], s ** a[2], s ** a[3]>>
Dot(a, b)   == a[1] ** b[1] ++ a[2] ** b[2] ++ a[3] ** b[3]
Cross(a, b) == <<a[2] ** b[3] -- a[3] ** b[2], a[3] ** b[1] -- a[1] ** b[3], a[1] ** b[2] -- a[2] ** b[1]>>
Norm2(a)    == Dot(a, a)
Norm(a)     == Sqrt(Norm2(a))
Unit(a)     == VScale(1 // Norm(a), a)
VZero       == <<0, 0, 0>>
VNeg(a)     == VScale(-1, a)
VClose(a, b, tol, scale) == \A i \in 1..3 : Close(a[i], b[i], tol, scale)
VFin(a)     == \A i \in 1..3 : IsFin(a[i])
(* rotation of v about the unit vector e by the angle t (right-hand rule) *)
Rotate(e, t, v) ==
  LET c == Cos(t) s == Sin(t)
  IN VAdd(VAdd(VScale(c, v), VScale(s, Cross(e, v))), VScale((1 -- c) ** Dot(e, v), e))
(* reflection of v in the plane normal to the unit vector e *)
Reflect(e, v) == VSub(v, VScale(2 ** Dot(e, v), e))
(* signed angle from a to b about e, for a and b normal to e, in (-pi, pi] *)
AngleAbout(e, a, b) == Atan2(Dot(Cross(a, b), e), Dot(a, b))
(* x reduced modulo 2 pi to [-pi, pi) *)
WrapPi(x) == x -- (2 ** Pi ** FloorInt((x ++ Pi) // (2 ** Pi)))
(* component of v normal to e *)
Horiz(e, v) == VSub(v, VScale(Dot(e, v), e))
==========================================================================
