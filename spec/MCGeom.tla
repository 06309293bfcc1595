------------------------------- MODULE MCGeom -------------------------------
(* Geometry in exact integer arithmetic: all 24 frames, quarter-turn yaws, integer hubs, winds and points. The chain of *)
(* transformations of the implementation (rotation matrix about the vertical, cylinder axes, translation, mirror        *)
(* points two hub heights below, sign of the swirl of the image, masks, skew) is the geometry of Turbine.tla:           *)
(* rigid motions move the field with the turbine, the ground plane is a symmetry plane, the wake follows the wind.      *)
(* The kernels are arbitrary integer fields with the symmetries of the real ones.                                      *)
EXTENDS Integers, Sequences, TLC, IOUtils
Bug == IOEnv.MC_BUGS
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sb(a, b)  == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(s, a) == <<s * a[1], s * a[2], s * a[3]>>
D(a, b)   == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
X(a, b)   == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Units == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
Frames == {f \in Units \X Units : D(f[1], f[2]) = 0}        \* (shaft, vertical)
(* rotation by q quarter turns about e *)
QC == <<1, 0, -1, 0>>
QS == <<0, 1, 0, -1>>
Rot(e, q, v) == LET c == QC[(q % 4) + 1] s == QS[(q % 4) + 1] IN Add(Add(Mul(c, v), Mul(s, X(e, v))), Mul((1 - c) * D(e, v), e))
Rfl(e, v) == Sb(v, Mul(2 * D(e, v), e))

VARIABLES fr, yaw, hub, kw, p
vars == <<fr, yaw, hub, kw, p>>
s0 == fr[1]
vt == fr[2]
shaft == Rot(vt, yaw, s0)
(* the wind: at tan(skew) = kw from the shaft, plus a vertical part *)
lat  == X(vt, shaft)
wind == Add(Add(Mul(2, shaft), Mul(2 * kw, lat)), vt)

(* --- kernels: local coordinates, integer fields; m = tan of the skew --- *)
(* tangential tube: symmetric about the plane y=0; any skew *)
Tang(m, x) == <<x[1] * x[3] + m * (1 + x[2] * x[2]) + m * x[1], x[2] * (x[3] + 1 + m * x[1] + m * m), x[1] * x[1] + x[2] * x[2] - 2 * x[3] + m * x[1] * x[3]>>
(* trailed and root vortices: antisymmetric *)
Swirl(m, x) == <<0 - (x[2] * (1 + x[3])), x[1] * (1 + x[3]) - m * x[3], m * x[2] * (2 + x[1])>>

(* --- specification: local axes, field alone, with its image --- *)
Ax(f, q) == <<X(f[2], Rot(f[2], q, f[1])), f[2], Rot(f[2], q, f[1])>>
Loc(f, q, v) == LET a == Ax(f, q) IN <<D(a[1], v), D(a[2], v), D(a[3], v)>>
Glo(f, q, v) == LET a == Ax(f, q) IN Add(Mul(v[1], a[1]), Add(Mul(v[2], a[2]), Mul(v[3], a[3])))
Both(m, x) == Add(Tang(m, x), Swirl(m, x))
Alone(f, q, h, m, x) == Glo(f, q, Both(m, Loc(f, q, Sb(x, h))))
Image(f, q, h, m, x) == Add(Alone(f, q, h, m, x), Rfl(f[2], Alone(f, q, h, m, Rfl(f[2], x))))
Masked(f, q, h, x) == LET l == Loc(f, q, Sb(x, h)) IN l[1] * l[1] + l[2] * l[2] <= 4 /\ l[3] >= -1

(* --- implementation: matrix of the cylinder axes before yaw, rotation matrix about the vertical, hub in these axes --- *)
Cols(f) == <<X(f[2], f[1]), f[2], f[1]>>
T(f, q) == LET c == Cols(f) y == IF Bug = "leftyaw" THEN 4 - q ELSE q IN <<Rot(f[2], y, c[1]), Rot(f[2], y, c[2]), Rot(f[2], y, c[3])>>
Tr(M, v) == <<D(M[1], v), D(M[2], v), D(M[3], v)>>           \* columns . v
Ap(M, v) == Add(Mul(v[1], M[1]), Add(Mul(v[2], M[2]), Mul(v[3], M[3])))
ImplSkew == LET h == Sb(wind, Mul(D(wind, vt), vt)) n == D(X(T(fr, yaw)[3], h), vt) d == D(T(fr, yaw)[3], h)
            IN (IF Bug = "chisign" THEN 0 - n ELSE n) \div d       \* tan of the angle about the vertical, an integer here
ImplU(f, q, h, m, x, ground) ==
  LET M  == T(f, q)
      c0 == Sb(IF Bug = "transposed" THEN Ap(M, x) ELSE Tr(M, x), Tr(M, h))
      hy == Tr(M, h)[2]
      c1 == <<c0[1], c0[2] + (IF Bug = "onehub" THEN hy ELSE 2 * hy), c0[3]>>
      g  == Add(Tang(m, c1), Mul(IF Bug = "swirlsign" THEN 1 ELSE -1, Swirl(m, c1)))
  IN Ap(M, IF ground THEN Add(Both(m, c0), g) ELSE Both(m, c0))

(* --- invariants --- *)
Kernels_ == LET y(v) == <<v[1], 0 - v[2], v[3]>> x == Sb(p, hub) IN Tang(kw, y(x)) = y(Tang(kw, x)) /\ Swirl(kw, y(x)) = Mul(-1, y(Swirl(kw, x)))
SkewOK == ImplSkew = kw
WakeFollows == Add(Mul(2, Glo(fr, yaw, <<kw, 0, 1>>)), vt) = wind     \* the wake axis is the direction of the horizontal wind
SameField == ImplU(fr, yaw, hub, kw, p, FALSE) = Alone(fr, yaw, hub, kw, p)
SameGround == ImplU(fr, yaw, hub, kw, p, TRUE) = Image(fr, yaw, hub, kw, p)
NoFlow == LET g == Sb(p, Mul(D(p, vt), vt)) IN D(ImplU(fr, yaw, hub, kw, g, TRUE), vt) = 0
Symmetric == Image(fr, yaw, hub, kw, Rfl(vt, p)) = Rfl(vt, Image(fr, yaw, hub, kw, p))
Motions == {<<e, q>> : e \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>}, q \in 1..3}
Shift == <<3, -1, 2>>
Rigid == \A g \in Motions :
  LET G(v) == Rot(g[1], g[2], v) f2 == <<G(fr[1]), G(fr[2])>> IN
  /\ ImplU(f2, yaw, Add(G(hub), Shift), kw, Add(G(p), Shift), FALSE) = G(ImplU(fr, yaw, hub, kw, p, FALSE))
  /\ LET b == Sb(Shift, Mul(D(Shift, f2[2]), f2[2])) IN ImplU(f2, yaw, Add(G(hub), b), kw, Add(G(p), b), TRUE) = G(ImplU(fr, yaw, hub, kw, p, TRUE))
  /\ Masked(f2, yaw, Add(G(hub), Shift), Add(G(p), Shift)) = Masked(fr, yaw, hub, p)
(* turning the turbine about its vertical, with frame instead of yaw *)
YawIsFrame == ImplU(<<shaft, vt>>, 0, hub, kw, p, FALSE) = ImplU(fr, yaw, hub, kw, p, FALSE)
FullTurn == ImplU(fr, yaw + 4, hub, kw, p, FALSE) = ImplU(fr, yaw, hub, kw, p, FALSE)
RoundTrip == Glo(fr, yaw, Loc(fr, yaw, p)) = p /\ Ap(T(fr, yaw), Tr(T(fr, yaw), p)) = p

Pts3 == {<<1, 2, -1>>, <<0, 3, 1>>, <<-2, 0, 1>>, <<2, -1, 3>>}
Init == fr \in Frames /\ yaw \in 0..3 /\ hub \in {<<0, 0, 0>>, <<1, 2, 0>>, <<-1, 1, 3>>} /\ kw \in {-1, 0, 2} /\ p \in Pts3
Spec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
