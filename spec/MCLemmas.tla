------------------------------ MODULE MCLemmas ------------------------------
(* The reference semantics checked against itself on quasi-random samples: facts of vortex theory that tie the         *)
(* operators of Kernels.tla and Loading.tla together (superposition, limits, symmetries, circulation, divergence and   *)
(* curl, Stokes, momentum balance). An error in one operator breaks its ties with the others.                          *)
EXTENDS Kernels, Loading, TLC, IOUtils
Group == IOEnv.MC_FAMILY
N     == atoi(IOEnv.MC_N)
VARIABLE n
Init == n \in 1..N
Spec == Init /\ [][UNCHANGED n]_n

Gen == <<Lit("0.41421356237"), Lit("0.73205080757"), Lit("0.23606797750"), Lit("0.64575131106"), Lit("0.31662479036"), Lit("0.60555127546"),
         Lit("0.12310562562"), Lit("0.35889894354"), Lit("0.79583152331"), Lit("0.38516480713")>>
U(j) == LET x == (n ++ Half) ** Gen[j] IN x -- FloorInt(x)           \* in (0,1)
Bt(j, a, b) == a ++ ((b -- a) ** U(j))
L(s) == Lit(s)

(* ---- sample values ---- *)
R == Bt(1, Half, 2)
g == Bt(2, L("-2"), 2)
m == Bt(3, L("-1.5"), L("1.5"))
(* a point at polar coordinates around the rotor, off the sheets *)
rho == IF Lt(U(4), L("0.45")) THEN R ** (U(5) ** L("0.8")) ELSE R ** Bt(5, L("1.25"), 4)
zz  == R ** Bt(6, L("-3"), 4)
psi == Bt(7, 0, 2 ** Pi)
SkewPt(mm) == <<(rho ** Cos(psi)) ++ (mm ** FMax(zz, 0)), rho ** Sin(psi), zz>>
P0 == SkewPt(0)
Pm == SkewPt(m)
Ry(v) == <<v[1], Neg(v[2]), v[3]>>
Rx(v) == <<Neg(v[1]), v[2], v[3]>>
VC(a, b, tol, sc) == VClose(a, b, L(tol), sc)
fab == FAbs(g) ++ L("1e-30")

(* fourth-order differences of a field f at p, step h *)
E3(ax) == [q \in 1..3 |-> IF q = ax THEN 1 ELSE 0]
Df(f(_), p, h, ax) == LET d(s) == f(VAdd(p, VScale(s ** h, E3(ax)))) IN VScale(1 // (12 ** h), VSub(VScale(8, VSub(d(1), d(-1))), VSub(d(2), d(-2))))
Div(f(_), p, h) == Df(f, p, h, 1)[1] ++ Df(f, p, h, 2)[2] ++ Df(f, p, h, 3)[3]
Curl(f(_), p, h) == LET a == Df(f, p, h, 1) b == Df(f, p, h, 2) c == Df(f, p, h, 3) IN <<b[3] -- c[2], c[1] -- a[3], a[2] -- b[1]>>
H == L("0.01") ** R

(* ---- tubes of rings ---- *)
TubeDivCurl == LET f(x) == TangU(g, R, m, x) IN Close(Div(f, Pm, H), 0, L("2e-4"), fab // R) /\ VC(Curl(f, Pm, H), VZero, "2e-4", fab // R)
TubeMirror == VC(TangU(g, R, m, Ry(Pm)), Ry(TangU(g, R, m, Pm)), "1e-9", fab) /\ VC(TangU(g, R, Neg(m), Rx(Pm)), Rx(TangU(g, R, m, Pm)), "1e-9", fab)
FarWake == LET p == <<(m ** 3000 ** R) ++ (Half ** R), L("0.3") ** R, 3000 ** R>> mu == Sqrt(1 ++ Sq(m)) u == TangU(g, R, m, p) IN
           \* deep inside an infinite skewed tube: along the vector area of the cut, curl-free inside
           Close(u[3], g, L("1e-3"), fab) /\ Close(u[2], 0, L("1e-3"), fab)
TubeFinite == LET a == R ** Bt(8, L("-2"), 1) b == R ** Bt(9, L("1.5"), 4) c == R ** Bt(10, 5, 9) IN
              /\ VC(VAdd(FiniteTangU(g, R, a, b, P0), FiniteTangU(g, R, b, c, P0)), FiniteTangU(g, R, a, c, P0), "1e-8", fab)
              /\ VC(VSub(TangU(g, R, 0, VSub(P0, <<0,0,a>>)), TangU(g, R, 0, VSub(P0, <<0,0,b>>))), FiniteTangU(g, R, a, b, P0), "1e-8", fab)
StackOfRings == LET a == Neg(R) b == R f(z) == RingU(g, R, VSub(P0, <<0,0,z>>))
                    q(k) == LET fk(z) == f(z)[k] IN Quad(fk, a, b, 24) IN
                VC(<<q(1), q(2), q(3)>>, FiniteTangU(g, R, a, b, P0), "1e-5", fab)
AxisTube == LET z == zz IN Close(TangU(g, R, 0, <<0, 0, z>>)[3], (g // 2) ** (1 ++ (z // Sqrt(Sq(z) ++ Sq(R)))), L("1e-9"), fab)
RotorPlane == LET r == FMin(rho, L("0.8") ** R) x == r // R
                  u == TangU(g, R, m, <<r, 0, 0>>) c == 1 // Sqrt(1 ++ Sq(m)) IN
              /\ Close(u[3], (g // 2) ** (1 ++ KztRef(x, m)), L("1e-6"), fab)
              /\ Close((u[1] ** c) -- (u[3] ** m ** c), Neg(g // 2) ** (((Sqrt(1 ++ Sq(m)) -- 1) // m) ++ KxitRef(x, m)), L("1e-6"), fab)

(* ---- trailed vortices, lines ---- *)
LongiSum == LET nn == 400 f(k) == LET t == (2 ** Pi ** (k ++ Half)) // nn IN RootU((g ** 2 ** Pi ** R) // nn, m, VSub(Pm, <<R ** Cos(t), R ** Sin(t), 0>>))
            IN VC(SumV(f, nn, 3), LongiU(g, R, m, Pm), "1e-4", fab)
LongiDivCurl == LET f(x) == LongiU(g, R, m, x) IN Close(Div(f, Pm, H), 0, L("2e-4"), fab // R) /\ VC(Curl(f, Pm, H), LongiEndCurl(g, R, Pm), "2e-4", fab // R)
LongiMirror == VC(LongiU(g, R, m, Ry(Pm)), VNeg(Ry(LongiU(g, R, m, Pm))), "1e-9", fab)
LinePt == VAdd(Pm, <<0, L("0.3") ** R, 0>>)
LineDivCurl == LET f(x) == RootU(g, m, x) d == LineDist(<<m, 0, 1>>, LinePt) h == L("0.02") ** FMin(d, Norm(LinePt)) IN
               Lt(L("0.1"), d) => /\ Close(Div(f, LinePt, h), 0, L("1e-5"), fab // Sq(d)) /\ VC(Curl(f, LinePt, h), LineEndCurl(g, LinePt), "1e-5", fab // Sq(d))
Circ(f(_), nn, c, a, b) ==      \* circulation around the circle c + a cos + b sin
  LET w(k) == LET t == (2 ** Pi ** k) // nn IN Dot(f(VAdd(c, VAdd(VScale(Cos(t), a), VScale(Sin(t), b)))), VSub(VScale(Cos(t), b), VScale(Sin(t), a)))
  IN ((2 ** Pi) // nn) ** Sum(w, nn)
Circulations ==
  LET root(x) == RootU(g, m, x) lng(x) == LongiU(g, R, m, x) z == 500 ** R
      all(x) == VAdd(RootU(Neg(g ** 2 ** Pi ** R), m, x), LongiU(g, R, m, x)) IN
  /\ Close(Circ(root, 200, <<m ** z, 0, z>>, <<R, 0, 0>>, <<0, R, 0>>), g, L("1e-4"), fab)
  /\ Close(Circ(root, 200, <<0, 0, 0>>, <<R, 0, 0>>, <<0, R, 0>>), g // 2, L("1e-6"), fab)
  /\ Close(Circ(lng, 200, <<m ** z, 0, z>>, <<2 ** R, 0, 0>>, <<0, 2 ** R, 0>>), g ** 2 ** Pi ** R, L("1e-4"), fab ** R)
  /\ Close(Circ(all, 200, <<m ** z, 0, z>>, <<2 ** R, 0, 0>>, <<0, 2 ** R, 0>>), 0, L("1e-4"), fab ** R)

(* ---- rings, doublets ---- *)
RingAxis == Close(RingU(g, R, <<0, 0, zz>>)[3], (g ** Sq(R)) // (2 ** Pow(Sq(R) ++ Sq(zz), L("1.5"))), L("1e-9"), fab // R)
RingElliptic ==     \* axial velocity of the ring by complete elliptic integrals
  LET r == Rho(P0) z == P0[3] a2 == Sq(R ++ r) ++ Sq(z) mm == (4 ** R ** r) // a2 K == EllipK(mm) w(s2) == Sqrt(1 -- (mm ** s2)) E == Elliptic(w) IN
  Close(RingU(g, R, P0)[3], (g // (2 ** Pi ** Sqrt(a2))) ** (K ++ (((Sq(R) -- Sq(r) -- Sq(z)) // (Sq(R -- r) ++ Sq(z))) ** E)), L("1e-8"), fab // R)
RingDivCurl == LET f(x) == RingU(g, R, x) IN Close(Div(f, P0, H), 0, L("2e-4"), fab // Sq(R)) /\ VC(Curl(f, P0, H), VZero, "2e-4", fab // Sq(R))
RingThrough == LET f(x) == RingU(g, R, x) h == L("0.3") ** R IN Close(Circ(f, 200, <<R, 0, 0>>, <<0, 0, h>>, <<h, 0, 0>>), Neg(g), L("1e-6"), fab) \/ Close(Circ(f, 200, <<R, 0, 0>>, <<0, 0, h>>, <<h, 0, 0>>), g, L("1e-6"), fab)
RingFar == LET p == VScale(100, P0) IN VC(RingU(g, R, p), DoubletU(<<0, 0, g ** Pi ** Sq(R)>>, p), "1e-3", (fab ** Sq(R)) // Pow(Norm(p), 3))
DoubletDivCurl == LET f(x) == DoubletU(<<g, m, R>>, x) h == L("0.02") ** Norm(P0) sc == (FAbs(g) ++ FAbs(m) ++ R) // Sq(Sq(Norm(P0))) IN
                  Close(Div(f, P0, h), 0, L("1e-5"), sc) /\ VC(Curl(f, P0, h), VZero, "1e-5", sc)
LinePtD == VAdd(Pm, <<0, R ** (IF Lt(Pm[2], 0) THEN L("-0.3") ELSE L("0.3")), 0>>)
DoubletLineFar ==   \* the tube seen from afar
  LET p == VScale(40, <<R ** Sin(psi // 2 ++ L("0.4")), L("0.2") ** R, R ** Cos((psi // 3) ++ L("0.9"))>>) IN
  VC(TangU(g, R, 0, p), DoubletLineU(g ** Pi ** Sq(R), 0, Inf, p), "3e-3", (fab ** Sq(R)) // Norm2(p))
DoubletLineSplit == LET a == R ** Bt(8, Half, 5) mu == <<m, 0, 1>> IN
  VC(VAdd(DoubletLineU(g, m, a, LinePtD), DoubletLineU(g, m, Inf, VSub(LinePtD, VScale(a, mu)))), DoubletLineU(g, m, Inf, LinePtD), "1e-7", fab // Sq(LineDist(mu, LinePtD)))
DoubletLineClosed ==   \* the closed form is the integral
  LET a == R ** Bt(8, Half, 5) e == <<m, 0, 1>> P(k) == VAdd(LinePtD, VScale(IF k = 1 THEN 0 ELSE IF k = 2 THEN Neg(a) ELSE 2 ** a, e)) IN
  \A k \in 1..3 : \A LL \in {a, Inf} : VC(DoubletLineQuad(g, m, LL, P(k)), DoubletLineExact(g, m, LL, P(k)), "1e-7", fab // Sq(LineDist(e, LinePtD)))
DoubletLineDiv == LET f(x) == DoubletLineU(g, m, Inf, x) d == LineDist(<<m, 0, 1>>, LinePtD) h == L("0.02") ** d IN
  Lt(L("0.2") ** R, d) => Close(Div(f, LinePtD, h), 0, L("1e-4"), fab // (d ** Sq(d))) /\ VC(Curl(f, LinePtD, h), VZero, "1e-4", fab // (d ** Sq(d)))

(* ---- elliptic integrals ---- *)
EK(mm) == EllipK(mm)
EE(mm) == LET w(s2) == Sqrt(1 -- (mm ** s2)) IN Elliptic(w)
mu1 == Bt(1, L("0.001"), L("0.999"))
nu1 == Bt(2, L("-20"), L("0.98"))
Legendre == Close((EE(mu1) ** EK(1 -- mu1)) ++ (EE(1 -- mu1) ** EK(mu1)) -- (EK(mu1) ** EK(1 -- mu1)), Pi // 2, L("1e-10"), 1)
PiSpecial == /\ Close(EllipPi(0, mu1), EK(mu1), L("1e-12"), EK(mu1))
             /\ Close(EllipPi(nu1, 0), Pi // (2 ** Sqrt(1 -- nu1)), L("1e-10"), 1 ++ (1 // Sqrt(1 -- nu1)))
             /\ Close(EllipPi(mu1, mu1), EE(mu1) // (1 -- mu1), L("1e-9"), EE(mu1) // (1 -- mu1))
Landen == LET k1 == (1 -- Sqrt(1 -- mu1)) // (1 ++ Sqrt(1 -- mu1)) IN Close(EK(mu1), (1 ++ k1) ** EK(Sq(k1)), L("1e-11"), EK(mu1))

(* ---- points ---- *)
Ord(md) == IF md = 1 THEN {2, 4, 6, 8} ELSE {2, 4, 6, 8, 10}
DampLimits == \A md \in {1, 2} : \A o \in Ord(md) : /\ Close(Damping(md, o, 400), 1, L("1e-12"), 1) /\ Close(Damping(md, o, 0), 0, L("1e-14"), 1)
PointCirc == LET d(t) == <<L("0.7") ** Cos(t), L("0.7") ** Sin(t)>> f(k) == LET t == (2 ** Pi ** k) // 50 u == PointU(g, d(t)) IN (u[2] ** Cos(t) -- (u[1] ** Sin(t))) ** L("0.7")
             IN Close(((2 ** Pi) // 50) ** Sum(f, 50), g, L("1e-12"), fab)
(* the vorticity (1/r) d(damping)/dr of a kernel of order o has no moments of order 2 .. o-2: integral of q^(2j) dDamping = 0 *)
Moments == \A o \in {4, 6} : LET h == L("1e-4") dd(q2) == (Damping(1, o, q2 ++ h) -- Damping(1, o, q2 -- h)) // (2 ** h) f(q2) == q2 ** dd(q2) IN Close(Quad(f, h, 40, 80), 0, L("1e-4"), 1)

(* ---- loading ---- *)
nc  == 1 + FloorInt(4 ** U(1))
lam0 == Bt(2, 2, 12)
rr  == [i \in 1..nc |-> ((i -- Half) // nc)]
kk  == [i \in 1..nc |-> L("0.1") ++ (L("0.5") ** Sq(Sin((i ** 3 ** U(3)) ++ U(4))))]
lam == [i \in 1..nc |-> (lam0 ** i) // nc]
Kinv == \A i \in 1..nc : LET lr == lam0 ** rr[i] k == KfromCt(kk[i], lr, TRUE) IN Close(k ** (1 ++ (k // (4 ** Sq(lr)))), kk[i], L("1e-12"), 1)
AbelOK == Abel(kk, lam)
BigLambda == \A i \in 1..nc : LET big == [j \in 1..nc |-> lam[j] ** 100000] IN
   Close(B(kk, lam, i, FALSE, FALSE, FALSE, "exact"), B(kk, big, i, TRUE, TRUE, FALSE, "exact"), L("1e-6"), 1)
Thrust ==  \* one cylinder: 1 - B^2 = Ct below the high-thrust threshold without swirl; continuous there; a = (1-B)/2 monotone
   LET b(ct) == B(<<ct>>, <<lam0>>, 1, FALSE, FALSE, TRUE, "exact") ct == Bt(5, L("0.01"), L("0.89")) IN
   /\ Close(1 -- Sq(b(ct)), ct, L("1e-12"), 1)
   /\ Close(b(CtC ** (1 -- L("1e-9"))), b(CtC ** (1 ++ L("1e-9"))), L("1e-7"), 1)
   /\ Lt(b(ct ++ L("0.05")), b(ct)) /\ Lt(b(L("1.3")), b(L("1.2")))
SheetsAdd == LET s == Strengths(rr, [i \in 1..nc |-> (kk[i] ** Pi) // lam0], CylRadii(rr, 1), 1, lam0, TRUE, TRUE, FALSE, "exact") IN
   \* the deficit at the innermost cylinder is the sum of the strengths, the trailed circulation adds up to the root vortex
   /\ (nc > 1 => LET f(i) == s.gt[i+1] IN Close(Sum(f, nc), Neg(2 ** s.a[1]), L("1e-12"), 1))
   /\ LET f(i) == s.gl[i+1] ** 2 ** Pi ** rr[i+1] IN Close(Sum(f, nc) ++ s.gr, 0, L("1e-12"), 1)

Lemmas ==
  CASE Group = "tubes"    -> TubeDivCurl /\ TubeMirror /\ FarWake /\ AxisTube /\ TubeFinite /\ StackOfRings
    [] Group = "plane"    -> (Lt(L("0.05"), FAbs(m)) => RotorPlane)
    [] Group = "lines"    -> LongiSum /\ LongiDivCurl /\ LongiMirror /\ LineDivCurl /\ Circulations
    [] Group = "rings"    -> RingAxis /\ RingElliptic /\ RingDivCurl /\ RingThrough /\ RingFar
    [] Group = "doublets" -> DoubletDivCurl /\ DoubletLineFar /\ DoubletLineSplit /\ DoubletLineClosed /\ DoubletLineDiv
    [] Group = "elliptic" -> Legendre /\ PiSpecial /\ Landen
    [] Group = "points"   -> DampLimits /\ PointCirc /\ Moments
    [] Group = "loading"  -> Kinv /\ AbelOK /\ BigLambda /\ Thrust /\ SheetsAdd
=============================================================================
