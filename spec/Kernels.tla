------------------------------ MODULE Kernels ------------------------------
(* Reference semantics of the velocity kernels of wiz: what each function computes, written as the integral (or the  *)
(* limit) that defines it, independently of the closed forms and branches of the implementation.                     *)
(*                                                                                                                   *)
(* Frame: origin at the rotor centre, z along the rotor axis downstream, x in the plane of the skew. The wake axis    *)
(* is (m z, 0, z), m = tan(skew angle). Every operator returns the Cartesian velocity <<ux,uy,uz>> at the point p.    *)
EXTENDS Vec

FourPi == 4 ** Pi

(* ---- Semi-infinite integrals over z' in [0,inf) of z'^k / |d - e z'|^3, for a generator starting at distance |d| ---- *)
(* a = |d|^2, b = d.e, c = |e|^2;   J0 = 1/(sqrt(a)(sqrt(ac)-b)),  J1 = 1/(sqrt(c)(sqrt(ac)-b)).                      *)
(* sqrt(ac)-b is evaluated as |d x e|^2/(sqrt(ac)+b) when b>0.                                                        *)
AcMinusB(d, e) ==
  LET sac == Sqrt(Norm2(d) ** Norm2(e))
      b   == Dot(d, e)
  IN IF Lt(b, 0) THEN sac -- b ELSE Norm2(Cross(d, e)) // (sac ++ b)
J0(d, e) == 1 // (Norm(d) ** AcMinusB(d, e))
J1(d, e) == 1 // (Norm(e) ** AcMinusB(d, e))

(* Number of azimuthal nodes: the periodic trapezoidal rule converges as exp(-n delta), delta ~ distance/R *)
NTheta(dist, R) ==
  LET x == (40 ** R) // dist
  IN IF Lt(x, 64) THEN 64 ELSE IF Lt(x, 4000) THEN FloorInt(x) + 1 ELSE 4000

(* distance from p to the (semi-infinite, skewed) tube surface, used only to choose the quadrature *)
SheetDist(R, m, p) ==
  LET zz   == IF Lt(p[3], 0) THEN 0 ELSE p[3]
      rr   == Sqrt(Sq(p[1] -- (m ** zz)) ++ Sq(p[2]))
      drad == FAbs(rr -- R)
      q    == drad // Sqrt(1 ++ Sq(m))
  IN IF Lt(p[3], 0) THEN Sqrt(Sq(FAbs(Sqrt(Sq(p[1]) ++ Sq(p[2])) -- R)) ++ Sq(p[3])) // Sqrt(1 ++ Sq(m)) ELSE q

(* u = 1/(4 pi) \oint dtheta f(theta) *)
Contour(f(_), n) == VScale(((2 ** Pi) // n) // FourPi, SumV(f, n, 3))

(* ---- Tube of vortex rings (tangential vorticity). Rings of strength gam per unit length along the wake axis,       *)
(* ring centres (m z', 0, z'), z'>=0, rings parallel to the rotor plane.                                              *)
TangUn(gam, R, m, p, n) ==
  LET e == <<m, 0, 1>>
      f(k) == LET t  == (2 ** Pi ** (k ++ Half)) // n    \* a point of the sheet at azimuth 0 gets the mean of both sides
                  s  == <<R ** Cos(t), R ** Sin(t), 0>>
                  dl == <<Neg(R ** Sin(t)), R ** Cos(t), 0>>
                  d  == VSub(p, s)
                  w  == AcMinusB(d, e)
              IN VSub(VScale(1 // (Norm(d) ** w), Cross(dl, d)), VScale(1 // (Norm(e) ** w), Cross(dl, e)))
  IN VScale(gam ** Norm(e), Contour(f, n))
(* next to the sheet of a straight tube: both halves of the circle from the azimuth of p, in u = log tan((pi - t)/2) with  *)
(* t the azimuth from that of p, so that the trapezoidal rule converges whatever the distance; g(c, s) is the integrand at *)
(* the point R (c, s) of the circle, dt = du/cosh(u), cos(t) = 1 - 2/(1 + exp(2u)), sin(t) = 1/cosh(u)                     *)
NearContour(g(_, _), R, p) ==
  LET r  == Sqrt(Sq(p[1]) ++ Sq(p[2])) cp == p[1] // r  sp == p[2] // r  h == Lit("0.25")
      f(k) == LET j  == IF k > 320 THEN k - 321 ELSE k
                  u  == h ** (j - 160)
                  ct == 1 -- (2 // (1 ++ Exp(2 ** u)))
                  st == IF k > 320 THEN 1 // Cosh(u) ELSE Neg(1 // Cosh(u))
              IN VScale(1 // Cosh(u), g((cp ** ct) -- (sp ** st), (sp ** ct) ++ (cp ** st)))
  IN VScale(h // FourPi, SumV(f, 642, 3))
NearSheet(R, m, p) == FEq(m, 0) /\ Lt(SheetDist(R, m, p), R // 50)
TangNear(gam, R, p) ==
  LET e == <<0, 0, 1>>
      g(c, s) == LET dl == <<Neg(R ** s), R ** c, 0>>
                     d  == <<p[1] -- (R ** c), p[2] -- (R ** s), p[3]>>
                     w  == AcMinusB(d, e)
                 IN VSub(VScale(1 // (Norm(d) ** w), Cross(dl, d)), VScale(1 // w, Cross(dl, e)))
  IN VScale(gam, NearContour(g, R, p))
TangU(gam, R, m, p) == IF NearSheet(R, m, p) THEN TangNear(gam, R, p) ELSE TangUn(gam, R, m, p, NTheta(SheetDist(R, m, p), R))

(* ---- Tube of trailed vortices: semi-infinite filaments along the wake axis starting on the rotor circle, strength  *)
(* gam per unit length of the circle.                                                                                 *)
LongiNear(gam, R, p) ==
  LET e == <<0, 0, 1>>
      g(c, s) == LET d == <<p[1] -- (R ** c), p[2] -- (R ** s), p[3]>> IN VScale(J0(d, e), Cross(e, d))
  IN VScale(gam ** R, NearContour(g, R, p))
LongiU(gam, R, m, p) == IF NearSheet(R, m, p) THEN LongiNear(gam, R, p) ELSE
  LET e == <<m, 0, 1>>
      n == NTheta(SheetDist(R, m, p), R)
      f(k) == LET t == (2 ** Pi ** (k ++ Half)) // n
                  d == VSub(p, <<R ** Cos(t), R ** Sin(t), 0>>)
              IN VScale(J0(d, e), Cross(e, d))
  IN VScale(gam ** R, Contour(f, n))

(* ---- Semi-infinite filament of strength G from the origin along e ---- *)
LineU(G, e, p) == VScale((G // FourPi) ** J0(p, e), Cross(e, p))
RootU(G, m, p) == LineU(G, <<m, 0, 1>>, p)
(* distance to the line carrying the filament, and whether p is on the filament *)
LineDist(e, p) == Norm(Cross(p, Unit(e)))

(* ---- Vortex ring of strength G, radius R, centred at the origin in the plane z=0 ---- *)
RingUc(G, R, p) ==
  LET dist == Sqrt(Sq(Sqrt(Sq(p[1]) ++ Sq(p[2])) -- R) ++ Sq(p[3]))
      n == NTheta(dist, R)
      f(k) == LET t == (2 ** Pi ** k) // n
                  d == VSub(p, <<R ** Cos(t), R ** Sin(t), 0>>)
              IN VScale(1 // Pow(Norm2(d), Lit("1.5")), Cross(<<Neg(R ** Sin(t)), R ** Cos(t), 0>>, d))
  IN VScale(G, Contour(f, n))

(* next to the filament: the same integral in phi = (pi - (theta - psi))/2 and u = log tan(phi), the trapezoidal rule in  *)
(* u converging whatever the distance; |p - s|^2 = dist^2 + 4 r R cos^2(phi), cos(theta - psi) = 1 - 2 cos^2(phi)       *)
RingNear(G, R, p) ==
  LET r  == Sqrt(Sq(p[1]) ++ Sq(p[2]))
      d0 == Sq(r -- R) ++ Sq(p[3])
      h  == Lit("0.25")
      f(k) == LET u  == h ** (k - 160)
                  c2 == 1 // (1 ++ Exp(2 ** u))
                  d2 == d0 ++ (4 ** r ** R ** c2)
                  w  == 1 // (d2 ** Sqrt(d2) ** 2 ** Cosh(u))
              IN <<w ** p[3] ** (1 -- (2 ** c2)), w ** ((R -- r) ++ (2 ** r ** c2))>>
      I  == SumV(f, 321, 2)
      c  == (G ** R ** h) // Pi
  IN <<c ** I[1] ** (p[1] // r), c ** I[1] ** (p[2] // r), c ** I[2]>>
RingU(G, R, p) ==
  IF Lt(Sqrt(Sq(Sqrt(Sq(p[1]) ++ Sq(p[2])) -- R) ++ Sq(p[3])), R // 20) THEN RingNear(G, R, p) ELSE RingUc(G, R, p)

(* ---- Finite straight tube of rings between z1 and z2 ---- *)
(* integrals of z'^k/|d - z' ez|^3 over [z1,z2]; rho2 = squared distance from p to the generator *)
FiniteTangU(gam, R, z1, z2, p) ==
  LET rp   == Sqrt(Sq(p[1]) ++ Sq(p[2]))
      zout == IF Lt(p[3], FMin(z1, z2)) THEN FMin(z1, z2) -- p[3] ELSE IF Lt(FMax(z1, z2), p[3]) THEN p[3] -- FMax(z1, z2) ELSE 0
      dist == Sqrt(Sq(rp -- R) ++ Sq(zout))
      n    == NTheta(dist, R)
      g(c, s) ==
              LET dx == p[1] -- (R ** c)
                  dy == p[2] -- (R ** s)
                  h2 == Sq(dx) ++ Sq(dy)
                  w1 == p[3] -- z1      \* generator from w1 down to w2: integral of (dx,dy,w)/(h2+w^2)^(3/2) dw
                  w2 == p[3] -- z2
                  q1 == Sqrt(h2 ++ Sq(w1))
                  q2 == Sqrt(h2 ++ Sq(w2))
                  (* I0 = int_{w2}^{w1} dw/(h2+w^2)^1.5 = [w/(h2 q)], I1 = int w dw/(..)^1.5 = [-1/q] *)
                  i1 == (1 // q2) -- (1 // q1)
                  i0 == IF Lt(0, w1 ** w2)
                        THEN ((Sq(w1) -- Sq(w2)) // (q1 ** q2 ** ((w1 ** q2) ++ (w2 ** q1))))    \* = (w1/q1 - w2/q2)/h2 without cancellation
                        ELSE ((w1 // q1) -- (w2 // q2)) // h2
              IN (* dl x (dx,dy,w) = R(-s,c,0) x (dx,dy,w) = R (c w, s w, -s dy - c dx) *)
                 VScale(R, <<c ** i1, s ** i1, Neg((s ** dy) ++ (c ** dx)) ** i0>>)
      f(k) == LET t == (2 ** Pi ** (k ++ Half)) // n IN g(Cos(t), Sin(t))
  IN VScale(gam, IF Lt(dist, R // 50) THEN NearContour(g, R, p) ELSE Contour(f, n))

(* ---- Doublets ---- *)
DoubletU(mm, d) ==
  LET r2 == Norm2(d)
      r3 == Pow(r2, Lit("1.5"))
  IN VScale(1 // FourPi, VSub(VScale((3 ** Dot(mm, d)) // (r2 ** r3), d), VScale(1 // r3, mm)))

(* Doublet line: doublets (0,0,mu) per unit z at (m z', 0, z'), 0 <= z' <= L (L may be infinite), by quadrature in u   *)
(* with z' = z0 + (h/|e|) sinh u                                                                                     *)
DoubletLineQuad(mu, m, L, p) ==
  LET e   == <<m, 0, 1>>
      ne  == Norm(e)
      z0  == Dot(p, e) // Norm2(e)
      zc  == FMin(FMax(z0, 0), L)
      h   == Norm(VSub(p, VScale(zc, e)))
      u0  == Asinh(((0 -- z0) ** ne) // h)
      u1  == IF IsInf(L) THEN u0 ++ 25 ELSE Asinh(((L -- z0) ** ne) // h)
      g(u) == LET zz == z0 ++ ((h // ne) ** Sinh(u))
              IN VScale((h // ne) ** Cosh(u), DoubletU(<<0, 0, mu>>, VSub(p, VScale(zz, e))))
      np  == 60
      du  == (u1 -- u0) // np
      f(k) == LET i == k \div 5
                  q == (k % 5) + 1
              IN VScale(GLw[q], g(u0 ++ (du ** (i ++ Half ++ (Half ** GLx[q])))))
  IN VScale(Half ** du, SumV(f, 5 * np, 3))

(* The same in closed form, exact but for rounding however close to the line: a half line from the origin along s e is  *)
(* the gradient of mu/(4 pi c^2) (s/a + m xi/(a d)); lemma DoubletLineClosed of MCLemmas                              *)
DoubletHalf(mu, m, s, p) ==
  LET e  == <<m, 0, 1>>
      cc == Norm(e)
      a  == Norm(p)
      b  == s ** Dot(p, e)
      xi == p[1] -- (m ** p[3])
      d  == IF Lt(0, b) THEN (Sq(xi) ++ Sq(cc ** p[2])) // ((a ** cc) ++ b) ELSE (a ** cc) -- b
      f  == (m ** xi) // (a ** d)
      t1 == VScale(Neg(s) // (a ** Sq(a)), p)
      t2 == VScale(m // (a ** d), <<1, 0, Neg(m)>>)
      t3 == VScale(Neg(f), VAdd(VScale(1 // Sq(a), p), VScale(1 // d, VSub(VScale(cc // a, p), VScale(s, e)))))
      all == VAdd(t1, VAdd(t2, t3))
  IN VScale(mu // (4 ** Pi ** Sq(cc)), IF FEq(m, 0) THEN t1 ELSE all)
DoubletLineExact(mu, m, L, p) ==
  LET e == <<m, 0, 1>>
      s == IF Lt(L ** Norm2(e), Dot(p, e)) THEN -1 ELSE 1
  IN IF IsInf(L) THEN DoubletHalf(mu, m, 1, p)
     ELSE VScale(s, VSub(DoubletHalf(mu, m, s, p), DoubletHalf(mu, m, s, VSub(p, VScale(L, e)))))
DoubletLineU(mu, m, L, p) ==
  LET e == <<m, 0, 1>> IN
  IF Lt(Norm(Cross(p, e)), Lit("0.1") ** Norm(p) ** Norm(e)) THEN DoubletLineExact(mu, m, L, p) ELSE DoubletLineQuad(mu, m, L, p)

(* ---- Self-similar axial induction upstream of the rotor (Troldborg & Meyer Forsting) ---- *)
SelfSimilarUz(gam, R, lam, eta, p) ==
  IF Lt(0, p[3]) THEN 0
  ELSE LET r   == Sqrt(Sq(p[1]) ++ Sq(p[2]))
           r12 == R ** Sqrt(lam ** (eta ++ Sq(p[3] // R)))
           ax  == (gam // 2) ** (1 ++ (p[3] // Sqrt(Sq(p[3]) ++ Sq(R))))
       IN ax ** Pow(1 // Cosh(Sqrt(2) ** (r // r12)), 8 // 9)

(* ---- Complete elliptic integrals, by the trapezoidal rule in u = log tan(theta), where all integrands are analytic *)
(* in |Im u| < pi/2 ---- *)
Elliptic(w(_)) ==   \* integral over theta in (0,pi/2) of w(sin^2 theta)
  LET h == Lit("0.25")
      f(k) == LET u  == h ** (k - 160)
                  s2 == 1 // (1 ++ Exp(Neg(2 ** u)))
              IN w(s2) // (2 ** Cosh(u))
  IN h ** Sum(f, 321)
EllipPi(n, m) ==    \* 1 - n s2 and 1 - m s2 evaluated without cancellation
  LET h == Lit("0.25")
      f(k) == LET u  == h ** (k - 160)
                  t2 == Exp(2 ** u)
                  c2 == 1 // (1 ++ t2)
                  dn == (1 ++ (t2 ** (1 -- n))) ** c2
                  dm == (1 ++ (t2 ** (1 -- m))) ** c2
              IN (1 // (dn ** Sqrt(dm))) // (2 ** Cosh(u))
  IN h ** Sum(f, 321)
EllipK(m) == EllipPi(0, m)

(* ---- Two-dimensional point vortex ---- *)
PointU(G, d) == LET r2 == Sq(d[1]) ++ Sq(d[2])
                IN <<Neg(d[2]) ** (G // (2 ** Pi ** r2)), d[1] ** (G // (2 ** Pi ** r2))>>
(* damping factors of the smoothing kernels; q2 = (r/eps)^2.  Model 1: Majda-Beale type, exp(-q2) times the Laguerre   *)
(* polynomial that cancels the first moments; model 2: Gaussian in q2/2 (order 2: in q2)                              *)
Majda(order, q2) ==
  LET E == Exp(Neg(q2)) IN
  CASE order = 2 -> 1 -- E
    [] order = 4 -> 1 -- ((1 -- q2) ** E)
    [] order = 6 -> 1 -- ((1 -- (2 ** q2) ++ (Sq(q2) // 2)) ** E)
    [] order = 8 -> 1 -- ((1 -- (3 ** q2) ++ ((3 ** Sq(q2)) // 2) -- ((q2 ** Sq(q2)) // 6)) ** E)
Gauss2(order, q2) ==
  LET E == Exp(Neg(q2) // 2)
      x == q2 // 2
  IN
  CASE order = 2  -> 1 -- Exp(Neg(q2))
    [] order = 4  -> 1 -- ((1 -- x) ** E)
    [] order = 6  -> 1 -- ((1 -- (2 ** x) ++ (Sq(x) // 2)) ** E)
    [] order = 8  -> 1 -- ((1 -- (3 ** x) ++ ((3 ** Sq(x)) // 2) -- ((x ** Sq(x)) // 6)) ** E)
    [] order = 10 -> 1 -- ((1 -- (4 ** x) ++ (3 ** Sq(x)) -- ((2 ** x ** Sq(x)) // 3) ++ (Sq(Sq(x)) // 24)) ** E)
Damping(model, order, q2) == IF model = 0 \/ order = 0 THEN 1 ELSE IF model = 1 THEN Majda(order, q2) ELSE Gauss2(order, q2)

(* ---- Rotor-plane expansion coefficients (r in [0,1], m = tan chi) as their defining integrals ---- *)
KxitRef(r, m) ==
  LET c2 == 1 // (1 ++ Sq(m))
      f(t) == Sq(Sin(2 ** t)) // (Sqrt(Sq(1 ++ r) -- (4 ** r ** Sq(Cos(t)))) ** ((Sq(r -- Cos(2 ** t)) ** c2) ++ Sq(Sin(2 ** t))))
  IN ((2 ** r) // Pi) ** Quad(f, 0, Pi // 2, 60)
KztRef(r, m) ==
  LET f(t) == LET d == 1 ++ Sq(r) -- (2 ** r ** Cos(t))
              IN Sq(Sin(t)) // (Sqrt(d) ** (d ++ (Sq(m) ** Sq(Sin(t)))))
  IN ((r ** m ** Sqrt(1 ++ Sq(m))) // Pi) ** Quad(f, 0, Pi, 60)

(* ---- polar <-> Cartesian ---- *)
Rho(p)  == Sqrt(Sq(p[1]) ++ Sq(p[2]))
Psi(p)  == Atan2(p[2], p[1])
ToPolar(psi, u) == <<(u[1] ** Cos(psi)) ++ (u[2] ** Sin(psi)), (u[2] ** Cos(psi)) -- (u[1] ** Sin(psi)), u[3]>>

(* ---- Curl of the velocities of vorticity that ends: u is the Biot-Savart integral of a vorticity w whose lines start  *)
(* at end points, curl u = w - grad div^-1: off the vorticity it is the field of point sinks of the strength released. *)
LineEndCurl(G, q) == VScale(Neg(G) // (FourPi ** Norm(q) ** Norm2(q)), q)
LongiEndCurl(gam, R, q) ==
  LET dist == Sqrt(Sq(Sqrt(Sq(q[1]) ++ Sq(q[2])) -- R) ++ Sq(q[3]))
      n == NTheta(dist, R)
      f(k) == LET t == (2 ** Pi ** k) // n
                  d == VSub(q, <<R ** Cos(t), R ** Sin(t), 0>>)
              IN VScale(1 // (Norm(d) ** Norm2(d)), d)
  IN VScale(Neg(gam) ** R, Contour(f, n))
=============================================================================
