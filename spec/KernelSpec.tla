----------------------------- MODULE KernelSpec -----------------------------
(* What every function of the library denotes. An event of a kernel call has ev.f (function), ev.a (arguments, as      *)
(* strings), the points ev.X, ev.Y, ev.Z in the convention ev.inp, the results ev.o in the convention ev.form.        *)
(*   inp : "cart" (x,y,z)  "rz" (r,-,z)  "rpz" (r,psi,z)                                                             *)
(*   form: "cart" (ux,uy,uz)  "pol2" (ur,uz)  "pol3" (ur,upsi,uz)  "uz"  "leg" (uz,upsi,ux,uy,uzeta,uxi,ur)[:nout]    *)
EXTENDS Kernels, Loading, Events

(* ---------------- vortex systems ---------------- *)
(* a system is a sequence of elements [k, g, R, m, c (centre), x (more numbers)] *)
El(k, g, R, m, cc, x) == [k |-> k, g |-> g, R |-> R, m |-> m, c |-> cc, x |-> x]
O3 == <<0, 0, 0>>
OnRim(R, q) == Lt(FAbs(Rho(q) -- R), Lit("1e-8") ** R) /\ Lt(FAbs(q[3]), Lit("1e-8") ** R)
OnRing(R, q) == Lt(FAbs(Rho(q) -- R), Lit("1e-7") ** R) /\ Lt(FAbs(q[3]), Lit("1e-7"))
OnLine(m, L, q) == Lt(FAbs(q[2]), Lit("1e-8")) /\ Lt(FAbs(q[1] -- (m ** q[3])), Lit("1e-8")) /\ Le(0, q[3]) /\ Le(q[3], L)
(* unit-speed filament of the direction of the (possibly skewed) wake axis *)
OnFilament(e, q) == FEq(Norm(q), 0) \/ Lt(LineDist(e, q), Lit("1e-9") ** Norm(q))

ElVel(s, p) ==
  LET q == VSub(p, s.c) IN
  IF FEq(s.g, 0) /\ s.k # "dbl" THEN VZero
  ELSE CASE s.k = "tang"  -> IF FEq(s.m, 0) /\ OnRim(s.R, q) THEN <<0, 0, s.g // 4>> ELSE TangU(s.g, s.R, s.m, q)
         [] s.k = "longi" -> LongiU(s.g, s.R, s.m, q)
         [] s.k = "line"  -> IF OnFilament(s.x, q) THEN VZero ELSE LineU(s.g, s.x, q)
         [] s.k = "fin"   -> FiniteTangU(s.g, s.R, s.x[1], s.x[2], q)
         [] s.k = "ring"  -> IF OnRing(s.R, q) THEN <<0, 0, s.g // (4 ** s.R)>> ELSE RingU(s.g, s.R, q)
         [] s.k = "dbl"   -> IF Lt(Norm2(q) ** Norm(q), Lit("1e-8")) THEN VZero ELSE DoubletU(s.x, q)
         [] s.k = "dline" -> IF OnLine(s.m, s.x[1], q) THEN VZero ELSE DoubletLineU(s.g, s.m, s.x[1], q)
         [] s.k = "ff"    -> IF Lt(s.x[1] ** s.R, Norm(q)) THEN (IF OnLine(0, Inf, q) THEN VZero ELSE DoubletLineU(s.g ** Pi ** Sq(s.R), 0, Inf, q))
                             ELSE TangU(s.g, s.R, 0, q)
         [] s.k = "ss"    -> <<0, 0, SelfSimilarUz(s.g, s.R, s.x[1], s.x[2], q)>>
(* curl of the velocity of an element off its vorticity: zero unless its vortex lines end (Kernels!LineEndCurl) *)
ElCurl(s, p) ==
  LET q == VSub(p, s.c) IN
  CASE s.k = "longi" -> LongiEndCurl(s.g, s.R, q)
    [] s.k = "line"  -> LineEndCurl(s.g, q)
    [] OTHER -> VZero
SysCurl(S, p) == LET f(i) == ElCurl(S[i+1], p) IN SumV(f, Len(S), 3)
SysVel(S, p) == LET f(i) == ElVel(S[i+1], p) IN SumV(f, Len(S), 3)

A1(ev, n) == Lit(ev.a[n])
AOr(ev, n, d) == IF n \in DOMAIN ev.a THEN Lit(ev.a[n]) ELSE d

(* sets of nCyl x nr concentric tubes and their mirror images in the plane y=0; the swirl of the image is opposite *)
SetOf(k, ev, mirrorSign) ==
  LET g == Nums(ev.a.g) R == Nums(ev.a.R) xc == Nums(ev.a.xc) yc == Nums(ev.a.yc) zc == Nums(ev.a.zc)
      m == IF "m" \in DOMAIN ev.a THEN Nums(ev.a.m) ELSE [i \in 1..Len(g) |-> 0]
      nr == ev.a.nr
      cyl(i) == ((i-1) \div nr) + 1
      own  == [i \in 1..Len(g) |-> El(k, g[i], R[i], m[i], <<xc[cyl(i)], yc[cyl(i)], zc[cyl(i)]>>, <<>>)]
      img  == [i \in 1..Len(g) |-> El(k, mirrorSign ** g[i], R[i], m[i], <<xc[cyl(i)], Neg(yc[cyl(i)]), zc[cyl(i)]>>, <<>>)]
  IN IF ev.a.ground = "1" THEN own \o img ELSE own

GridPos(ev) ==
  LET nx == ev.a.nx nz == ev.a.nz
      xs == A1(ev, "xs")
      zs == IF ev.a.zs = "" THEN xs ELSE A1(ev, "zs")
      n  == nx * nz
      row(i) == (i-1) \div nx
      col(i) == (i-1) % nx
      half == nx \div 2
  IN [i \in 1..(IF ev.a.mirror = "1" THEN 2*n ELSE n) |->
        LET q == ((i-1) % n) + 1
        IN <<(col(q) - half) ** xs, IF i > n THEN Neg(A1(ev, "hh")) ELSE A1(ev, "hh"), row(q) ** zs>>]

System(ev) ==
  LET f == ev.f
      g == AOr(ev, "g", -1)
      R == AOr(ev, "R", 1)
      m == AOr(ev, "m", 0)
  IN
  CASE f \in {"vc_tang_u", "cylinder_tang_semi_inf_u_raw"} -> <<El("tang", g, R, 0, O3, <<>>)>>
    [] f \in {"svc_tang_u", "svc_tang_u_polar", "fV_Tangential"} -> <<El("tang", g, R, m, O3, <<>>)>>
    [] f \in {"vc_longi_u", "vc_longi_u_polar"} -> <<El("longi", g, R, 0, O3, <<>>)>>
    [] f \in {"svc_longi_u", "svc_longi_u_polar", "fV_Trailed"} -> <<El("longi", g, R, m, O3, <<>>)>>
    [] f \in {"vc_root_u", "vl_semiinf_straight_u", "vl_semiinf_straight_u_polar"} -> <<El("line", g, 1, 0, O3, <<0, 0, 1>>)>>
    [] f \in {"svc_root_u", "svc_root_u_polar", "fV_Root"} -> <<El("line", g, 1, m, O3, <<m, 0, 1>>)>>
    [] f = "vl_semiinf_u" -> <<El("line", g, 1, 0, O3, Nums(ev.a.e))>>
    [] f = "svc_u_polar" -> <<El("tang", A1(ev, "gt"), R, m, O3, <<>>), El("longi", A1(ev, "gl"), R, m, O3, <<>>), El("line", A1(ev, "gr"), 1, m, O3, <<m, 0, 1>>)>>
    [] f = "vc_tang_u_doublet" -> <<El("ff", g, R, 0, O3, <<AOr(ev, "cut", 6)>>)>>
    [] f = "cylinder_tang_u" -> <<El("fin", g, R, 0, O3, <<A1(ev, "z1"), A1(ev, "z2")>>)>>
    [] f \in {"vcs_tang_u", "svcs_tang_u"} -> SetOf("tang", ev, 1)
    [] f \in {"vcs_longi_u", "svcs_longi_u"} -> SetOf("longi", ev, -1)
    [] f \in {"ring_u", "ring_u_polar_singular", "ring_u_polar_singularb"} -> <<El("ring", g, R, 0, O3, <<>>)>>
    [] f = "ring_u_polar" -> <<El("ring", g, R, 0, <<0, 0, AOr(ev, "z0", 0)>>, <<>>)>>
    [] f = "rings_u" -> LET G == Nums(ev.a.g) RR == Nums(ev.a.R) x == Nums(ev.a.xc) y == Nums(ev.a.yc) z == Nums(ev.a.zc)
                        IN [i \in 1..Len(G) |-> El("ring", G[i], RR[i], 0, <<x[i], y[i], z[i]>>, <<>>)]
    [] f = "doublet_u" -> <<El("dbl", 1, 1, 0, Nums(ev.a.x0), Nums(ev.a.mm))>>
    [] f = "doublet_u_polar" -> <<El("dbl", 1, 1, 0, <<0, 0, AOr(ev, "z0", 0)>>, <<0, 0, g>>)>>
    [] f = "doublet_line_polar_u" -> <<El("dline", g, 1, 0, O3, <<Inf>>)>>
    [] f = "doublet_line_u" -> <<El("dline", g, 1, m, O3, <<AOr(ev, "L", Inf)>>)>>
    [] f \in {"doublet_line_u_num", "doublet_line_polar_u_num"} ->
         LET z0 == AOr(ev, "z0", 0)
         IN <<El("dline", g, 1, m, <<0, 0, z0>>, <<A1(ev, "zmax") -- z0>>)>>
    [] f = "ss_u" -> <<El("ss", g, R, 0, O3, <<AOr(ev, "lam", Lit("0.587")), AOr(ev, "eta", Lit("1.32"))>>)>>
    [] f = "windfarm_gridlayout_CTconst" ->
         LET P == GridPos(ev)
             gt == Neg(A1(ev, "U0")) ** (1 -- Sqrt(1 -- A1(ev, "CT")))
         IN [i \in 1..Len(P) |-> El("tang", gt, R, 0, P[i], <<>>)]

(* ---------------- points and components ---------------- *)
KPt(ev, p) == CASE ev.inp = "cart" -> p [] ev.inp = "rz" -> <<p[1], 0, p[3]>> [] ev.inp = "rpz" -> <<p[1] ** Cos(p[2]), p[1] ** Sin(p[2]), p[3]>>
KPsi(ev, p) == CASE ev.inp = "cart" -> Psi(p) [] ev.inp = "rz" -> 0 [] ev.inp = "rpz" -> p[2]
Form(ev, psi, u) ==
  LET w == ToPolar(psi, u) IN
  CASE ev.form = "cart" -> u
    [] ev.form = "pol2" -> <<w[1], w[3]>>
    [] ev.form = "pol3" -> w
    [] ev.form = "uz"   -> <<u[3]>>
    [] ev.form = "leg"  -> LET m == AOr(ev, "m", 0) cc == 1 // Sqrt(1 ++ Sq(m)) ss == m // Sqrt(1 ++ Sq(m))
                           IN SubSeq(<<u[3], w[2], u[1], u[2], (u[3] ** cc) ++ (u[1] ** ss), (u[1] ** cc) -- (u[3] ** ss), w[1]>>, 1, ev.nout)
(* the Cartesian vector described by the results at point j ("pol2" has no azimuthal component) *)
ToCart(ev, o, j, psi) ==
  LET cs == Cos(psi) sn == Sin(psi) IN
  CASE ev.form = "cart" -> At(o, j)
    [] ev.form = "pol2" -> <<o[1][j] ** cs, o[1][j] ** sn, o[2][j]>>
    [] ev.form = "pol3" -> <<(o[1][j] ** cs) -- (o[2][j] ** sn), (o[1][j] ** sn) ++ (o[2][j] ** cs), o[3][j]>>
    [] ev.form = "leg"  -> <<o[3][j], o[4][j], o[1][j]>>
Results(ev, o, j) == [q \in 1..Len(o) |-> o[q][j]]

KAbs(ev) ==
  LET o == O(ev) P == Pts(ev) S == System(ev) n == Len(P) IN
  /\ \A q \in 1..Len(o) : Len(o[q]) = n
  /\ \A j \in 1..n : NumsClose(Results(ev, o, j), Form(ev, KPsi(ev, P[j]), SysVel(S, KPt(ev, P[j]))), Tol(ev), Sc(ev))
(* axial component only (rim of the straight tube: the radial velocity is not defined there) *)
KAbsAxial(ev) ==
  LET o == O(ev) P == Pts(ev) S == System(ev) IN
  \A j \in 1..Len(P) : Close(o[Len(o)][j], SysVel(S, KPt(ev, P[j]))[3], Tol(ev), Sc(ev))

(* ---------------- core models, regularisations ---------------- *)
(* filament with core: velocity of the singular filament times the damping of the model, h = distance to the line, t = core size *)
CoreFactor(model, t, h, den) ==
  CASE model = 0 -> 1
    [] model = 1 -> IF Lt(h, t) THEN Sq(h) // Sq(t) ELSE 1
    [] model = 2 -> 1 -- Exp(Neg(Lit("1.25643") ** Sq(h)) // Sq(t))
    [] model = 3 -> Sq(h) // Sqrt(Sq(Sq(t)) ++ Sq(Sq(h)))
    [] model = 5 -> den // (den ++ t)
LineCore(ev) ==
  LET o == O(ev) P == Pts(ev) e == Nums(ev.a.e) t == A1(ev, "t") IN
  \A j \in 1..Len(P) :
    LET den == Norm(P[j]) ** AcMinusB(P[j], e)
        ref == IF OnFilament(e, P[j]) THEN VZero ELSE VScale(CoreFactor(ev.a.visc, t, LineDist(e, P[j]), den), LineU(A1(ev, "g"), e, P[j]))
    IN VClose(At(o, j), ref, Tol(ev), Sc(ev))
(* regularised straight tube: the singular one upstream, within (eps/distance to the sheet)^2 elsewhere *)
TangReg(ev) ==
  LET o == O(ev) P == Pts(ev) S == System(ev) R == S[1].R eps == A1(ev, "eps") IN
  \A j \in 1..Len(P) :
    LET p == KPt(ev, P[j])
        ref == Form(ev, KPsi(ev, P[j]), SysVel(S, p))
        d == FMin(FAbs(Rho(p) -- R), R)
        slack == IF Lt(p[3], 0) THEN 0 ELSE 3 ** FAbs(S[1].g) ** Sq(eps // d)
    IN \A q \in 1..Len(o) : Le(FAbs(o[q][j] -- ref[q]), (Tol(ev) ** Sc(ev)) ++ slack)
(* rings with a core: Saffman's value inside the core, the singular ring outside *)
RingCore(ev) ==
  LET o == O(ev) P == Pts(ev) S == System(ev) eps == A1(ev, "eps") IN
  \A j \in 1..Len(P) :
    LET p == KPt(ev, P[j])
        in(s) == LET q == VSub(p, s.c) rho == Sqrt(Sq(Rho(q) -- s.R) ++ Sq(q[3]))
                 IN IF ev.f = "ring_u_polar" THEN Lt(rho, eps // 2) ELSE OnRing(s.R, q)
        val(s) == (s.g // (4 ** Pi ** s.R)) ** (Log(((IF ev.f = "ring_u_polar" THEN 16 ELSE 8) ** s.R) // eps) -- Lit("0.25"))
        f(i) == IF FEq(S[i+1].g, 0) THEN VZero ELSE IF in(S[i+1]) THEN <<0, 0, val(S[i+1])>> ELSE ElVel(S[i+1], p)
    IN NumsClose(Results(ev, o, j), Form(ev, KPsi(ev, P[j]), SumV(f, Len(S), 3)), Tol(ev), Sc(ev))
(* quadrature of the doublet line by nQuad point doublets at equally spaced z: rectangle rule including both ends *)
DLineNum(ev) ==
  LET o == O(ev) P == Pts(ev) m == AOr(ev, "m", 0) g == A1(ev, "g") z0 == AOr(ev, "z0", 0)
      nq == ev.a.nq
      dz == (A1(ev, "zmax") -- z0) // (nq - 1)
      at(k) == LET z == z0 ++ (dz ** k) IN <<m ** z, 0, z>>
      mu == <<0, 0, g ** dz>>
  IN \A j \in 1..Len(P) :
       LET p == KPt(ev, P[j])
           f(k) == DoubletU(mu, VSub(p, at(k)))
           ends == Norm(f(0)) ++ Norm(f(nq - 1))
           d == FMin(Norm(VSub(p, at(0))), LineDist(<<m, 0, 1>>, p))
           ref == Form(ev, KPsi(ev, P[j]), SumV(f, nq, 3))
           lin == Form(ev, KPsi(ev, P[j]), SysVel(System(ev), p))
       IN \A q \in 1..Len(o) :   \* any composite rule on these points: rectangle up to the two end terms
            /\ Le(FAbs(o[q][j] -- ref[q]), ends ++ (Tol(ev) ** Sc(ev)))
            /\ Le(FAbs(o[q][j] -- lin[q]), ends ++ (Tol(ev) ** Sc(ev)))

(* ---------------- relations between calls of one chunk ---------------- *)
ElMatch(s, u, sg, sl, sm) ==    \* u is s with strengths times sg, lengths times sl
  /\ s.k = u.k
  /\ Close(u.g, sg ** s.g, Lit("1e-12"), FAbs(u.g)) /\ Close(u.R, sl ** s.R, Lit("1e-12"), u.R) /\ Close(u.m, sm ** s.m, Lit("1e-12"), FAbs(u.m))
  /\ VClose(u.c, VScale(sl, s.c), Lit("1e-12"), 1 ++ Norm(u.c)) /\ Len(u.x) = Len(s.x)
SysMatch(S, U, sg, sl, sm) == Len(S) = Len(U) /\ \A i \in 1..Len(S) : ElMatch(S[i], U[i], sg, sl, sm)
XMatch(S, U, f(_)) == \A i \in 1..Len(S) : \A q \in 1..Len(S[i].x) : IF IsInf(S[i].x[q]) THEN IsInf(U[i].x[q]) ELSE Close(U[i].x[q], f(S[i].x[q]), Lit("1e-12"), 1)

KRel(ev, tr, r) ==
  LET o == O(ev) P == Pts(ev) n == Len(P) t == Tol(ev) sc == Sc(ev)
      V(e, oo, PP, j) == ToCart(e, oo, j, KPsi(e, PP[j]))
      a  == IF r.k # "sum" THEN tr[r.a] ELSE ev
      oa == IF r.k # "sum" THEN O(a) ELSE <<>>
      Pa == IF r.k # "sum" THEN Pts(a) ELSE <<>>
      id(x) == x
      FinEq(x, y) == Close(x, y, t, sc) \/ (~IsFin(x) /\ ~IsFin(y))
  IN
  CASE r.k = "subset" ->   \* same call on other points: point j here is point map[j] there; results agree to rounding
         /\ a.f = ev.f /\ a.a = ev.a /\ a.form = ev.form /\ a.out = "ok" /\ ev.out = "ok" /\ Len(o) = Len(oa)
         /\ \A j \in 1..n : VClose(P[j], Pa[r.map[j]], 0, 1)
         /\ \A q \in 1..Len(o) : Len(o[q]) = n /\ \A j \in 1..n : FinEq(o[q][j], oa[q][r.map[j]])
    [] r.k = "agree" ->    \* same vortex system, same points: same vectors, whatever the function and the components
         LET S == System(ev) U == System(a) IN
         /\ SysMatch(U, S, 1, 1, 1) /\ XMatch(U, S, id) /\ Len(Pa) = n
         /\ \A j \in 1..n : VClose(KPt(ev, P[j]), KPt(a, Pa[j]), Lit("1e-12"), 1 ++ Norm(KPt(ev, P[j])))
         /\ \A j \in 1..n : VClose(V(ev, o, P, j), V(a, oa, Pa, j), t, sc)
    [] r.k = "axisym" ->   \* polar components do not depend on the azimuth of the point
         /\ SysMatch(System(a), System(ev), 1, 1, 1) /\ ev.form = a.form
         /\ \A j \in 1..n : LET p == KPt(ev, P[j]) pa == KPt(a, Pa[j]) IN Close(Rho(p), Rho(pa), Lit("1e-12"), 1 ++ Rho(p)) /\ Close(p[3], pa[3], Lit("1e-12"), 1 ++ FAbs(p[3]))
         /\ \A j \in 1..n : NumsClose(Results(ev, o, j), Results(a, oa, j), t, sc)
    [] r.k = "lin" ->      \* strengths times s: velocities times s
         LET s == Lit(r.s) IN
         /\ IF ev.f \in {"doublet_u", "doublet_u_polar"} THEN \A q \in 1..3 : Close(System(ev)[1].x[q], s ** System(a)[1].x[q], Lit("1e-12"), 1)
            ELSE SysMatch(System(a), System(ev), s, 1, 1) /\ (System(ev)[1].k # "dbl" => XMatch(System(a), System(ev), id))
         /\ \A j \in 1..n : VClose(P[j], Pa[j], 0, 1)
         /\ \A q \in 1..Len(o) : \A j \in 1..n : Close(o[q][j], s ** oa[q][j], t, sc)
    [] r.k = "sim" ->      \* lengths times s: velocities times s^r.p, with p the dimension of the strength (0 sheet, -1 circulation, -2 doublet line, -3 doublet)
         LET s == Lit(r.s) IN
         /\ SysMatch(System(a), System(ev), 1, s, 1) \/ System(ev)[1].k \in {"line", "dbl", "dline"}
         /\ r.p = (CASE System(ev)[1].k \in {"tang", "longi", "fin", "ff", "ss"} -> 0 [] System(ev)[1].k \in {"line", "ring"} -> -1 [] System(ev)[1].k = "dline" -> -2 [] System(ev)[1].k = "dbl" -> -3)
         /\ \A j \in 1..n : VClose(KPt(ev, P[j]), VScale(s, KPt(a, Pa[j])), Lit("1e-12"), 1 ++ Norm(KPt(ev, P[j])))
         /\ \A q \in 1..Len(o) : \A j \in 1..n : Close(o[q][j], Pow(s, r.p) ** oa[q][j], t, sc)
    [] r.k = "mirrorskew" -> \* x -> -x and m -> -m: ux changes sign; swirling systems the opposite
         LET U == System(a) S == System(ev)
             sg == IF S[1].k = "tang" THEN 1 ELSE -1 IN
         /\ SysMatch(U, S, 1, 1, -1)
         /\ \A j \in 1..n : VClose(KPt(ev, P[j]), LET p == KPt(a, Pa[j]) IN <<Neg(p[1]), p[2], p[3]>>, Lit("1e-12"), 1 ++ Norm(KPt(ev, P[j])))
         /\ \A j \in 1..n : LET v == V(a, oa, Pa, j) IN VClose(V(ev, o, P, j), VScale(sg, <<Neg(v[1]), v[2], v[3]>>), t, sc)
    [] r.k = "sum" ->      \* the system is the union of the systems of the other calls (all on the same points)
         /\ \A q \in 1..Len(r.a) : \A j \in 1..n : VClose(KPt(ev, P[j]), KPt(tr[r.a[q]], Pts(tr[r.a[q]])[j]), Lit("1e-12"), 1 ++ Norm(KPt(ev, P[j])))
         /\ IF r.u = "fin" THEN \* adjoining finite tubes
               LET S(q) == System(tr[r.a[q]])[1] N == Len(r.a) IN
               /\ System(ev)[1].k = "fin"
               /\ FEq(S(1).x[1], System(ev)[1].x[1]) /\ FEq(S(N).x[2], System(ev)[1].x[2])
               /\ \A q \in 1..N-1 : FEq(S(q).x[2], S(q+1).x[1])
               /\ \A q \in 1..N : FEq(S(q).g, System(ev)[1].g) /\ FEq(S(q).R, System(ev)[1].R)
            ELSE LET RECURSIVE Cat(_) Cat(q) == IF q > Len(r.a) THEN <<>> ELSE System(tr[r.a[q]]) \o Cat(q+1)
                     NZ(S) == SelectSeq(S, LAMBDA s : ~FEq(s.g, 0))
                 IN SysMatch(NZ(Cat(1)), NZ(System(ev)), 1, 1, 1)
         /\ \A j \in 1..n : LET f(q) == V(tr[r.a[q+1]], O(tr[r.a[q+1]]), Pts(tr[r.a[q+1]]), j) IN VClose(V(ev, o, P, j), SumV(f, Len(r.a), 3), t, sc)
    [] r.k = "tends" ->    \* the two calls agree up to r.by (relative to the scale): limits
         \A q \in 1..Len(o) : \A j \in 1..n : Le(FAbs(o[q][j] -- oa[q][j]), Lit(r.by) ** sc)
    [] r.k = "vec" ->      \* same call through the other calling convention
         Len(o) = Len(oa) /\ \A q \in 1..Len(o) : Len(o[q]) = Len(oa[q]) /\ \A j \in 1..Len(o[q]) : FinEq(o[q][j], oa[q][j])
    [] r.k = "stencil" ->  \* groups of 12 points c +- h e_i, c +- 2h e_i: 4th-order differences, the divergence vanishes and the curl is that of the ends of the vortex lines
         LET h == Lit(r.h)
             D(b, ax, q) == LET k == (12 * b) + (4 * (ax - 1))
                                f(j) == V(ev, o, P, k + j)[q]
                            IN ((8 ** (f(1) -- f(2))) -- (f(3) -- f(4))) // (12 ** h)
             at(b, ax, l, d) == KPt(ev, P[(12 * b) + (4 * (ax - 1)) + l])[d]
             ctr(b) == VScale(Half, VAdd(KPt(ev, P[(12 * b) + 1]), KPt(ev, P[(12 * b) + 2])))
             placed(b) == \A ax \in 1..3 : \A l \in 1..4 : \A d \in 1..3 :
                            Close(at(b, ax, l, d), ctr(b)[d] ++ (IF d # ax THEN 0 ELSE (CASE l = 1 -> h [] l = 2 -> Neg(h) [] l = 3 -> 2 ** h [] l = 4 -> Neg(2 ** h))), Lit("1e-9"), h ++ Norm(ctr(b)))
         IN \A b \in 0..(n \div 12) - 1 :
              /\ placed(b)
              /\ Le(FAbs(D(b,1,1) ++ D(b,2,2) ++ D(b,3,3)), t ** sc)
              /\ VClose(<<D(b,2,3) -- D(b,3,2), D(b,3,1) -- D(b,1,3), D(b,1,2) -- D(b,2,1)>>, SysCurl(System(ev), ctr(b)), t, sc)
    [] r.k = "loop" ->     \* circulation around the closed loop of (dense, periodic) points equals r.val
         LET X(j) == KPt(ev, P[(j % n) + 1])
             f(j) == Half ** Dot(V(ev, o, P, j + 1), VSub(X(j + 1), X(j + n - 1)))
         IN Close(Sum(f, n), Lit(r.val), t, sc)
    [] r.k = "noflow" ->   \* sets of cylinders over the ground y = 0: no normal velocity at its points
         /\ ev.a.ground = "1"
         /\ \A j \in 1..n : FEq(P[j][2], 0) /\ Le(FAbs(o[2][j]), t ** sc)
    [] OTHER -> FALSE

(* ---------------- elliptic integrals, vortex points, integrals ---------------- *)
RelClose(x, ref, tol) == Le(FAbs(x -- ref), tol ** FAbs(ref))
EllipticOK(ev) ==
  LET n == Nums(ev.X) m == Nums(ev.Y) o == O(ev) IN
  /\ Len(o[1]) = Len(n)
  /\ \A j \in 1..Len(n) : IF Le(1, n[j]) THEN IsInf(o[1][j]) /\ Lt(0, o[1][j]) ELSE RelClose(o[1][j], EllipPi(n[j], m[j]), Tol(ev))
PointsOK(ev) ==
  LET o == O(ev) x == Nums(ev.X) y == Nums(ev.Y)
      vx == Nums(ev.a.vx) vy == Nums(ev.a.vy) g == Nums(ev.a.g) sp == Nums(ev.a.sp)
  IN /\ Len(o) = ev.ndim
     /\ \A j \in 1..Len(x) :
        LET f(i) == LET d == <<x[j] -- vx[i+1], y[j] -- vy[i+1]>> r2 == Sq(d[1]) ++ Sq(d[2])
                    IN IF Lt(r2, Lit("1e-15")) THEN <<0, 0>>
                       ELSE LET u == PointU(g[i+1], d)
                                k == IF ev.a.model = 0 \/ ev.a.order = 0 THEN 1 ELSE Damping(ev.a.model, ev.a.order, r2 // Sq(sp[i+1]))
                            IN <<k ** u[1], k ** u[2]>>
            s == SumV(f, Len(vx), 2)
        IN /\ Close(o[1][j], s[1], Tol(ev), Sc(ev)) /\ Close(o[2][j], s[2], Tol(ev), Sc(ev))
           /\ (ev.ndim = 3 => FEq(o[3][j], 0))
(* point function: one vortex, Gaussian core when viscous *)
PointOK(ev) ==
  LET o == O(ev) d == <<A1(ev, "x") -- A1(ev, "vx"), A1(ev, "y") -- A1(ev, "vy")>>
      u == PointU(A1(ev, "g"), d)
      k == IF ev.a.viscous = "1" THEN 1 -- Exp(Neg(Sq(d[1]) ++ Sq(d[2])) // Sq(A1(ev, "rc"))) ELSE 1
  IN Close(o[1][1], k ** u[1], Tol(ev), Sc(ev)) /\ Close(o[2][1], k ** u[2], Tol(ev), Sc(ev))
(* integrals over the semi-infinite line: k-th moment of 1/dist^n, times 1 or 3; by quadrature in z' = z0 + (h/|e|) sinh u *)
LineInt(p, m, nexp, kk) ==
  LET e == <<m, 0, 1>> ne == Norm(e)
      z0 == Dot(p, e) // Norm2(e)
      h == Norm(VSub(p, VScale(z0, e)))
      u0 == Asinh((Neg(z0) ** ne) // h)
      f(u) == LET zz == z0 ++ ((h // ne) ** Sinh(u)) IN ((h // ne) ** Cosh(u) ** (IF kk = 0 THEN 1 ELSE Pow(zz, kk))) // Pow(h ** Cosh(u), nexp)
  IN Quad(f, u0, u0 ++ 40, 120)
IntegralOK(ev) ==
  LET o == O(ev) P == Pts(ev) m == A1(ev, "m")
      cf == CASE ev.f = "I30" -> <<3, 0, 1>> [] ev.f = "tI50" -> <<5, 0, 3>> [] ev.f = "tI51" -> <<5, 1, 3>> [] ev.f = "tI52" -> <<5, 2, 3>>
              [] ev.f = "I30_num" -> <<3, 0, 1>> [] ev.f = "I50_num" -> <<5, 0, 1>> [] ev.f = "I51_num" -> <<5, 1, 1>> [] ev.f = "I52_num" -> <<5, 2, 1>>
  IN \A j \in 1..Len(P) : RelClose(o[1][j], cf[3] ** LineInt(P[j], m, cf[1], cf[2]), Tol(ev))

(* ---------------- rotor plane ---------------- *)
OyeF(r) == Half ** (r ++ (Lit("0.4") ** r ** Sq(r)) ++ (Lit("0.4") ** r ** Sq(Sq(r))))
KfunOK(ev) ==
  LET o == O(ev) r == Nums(ev.X) m == A1(ev, "m")
      ref(x) == IF FEq(x, 0) THEN 0 ELSE IF ev.f = "fKxit" THEN KxitRef(x, m) ELSE KztRef(x, m)
  IN /\ Len(o) = ev.nout
     /\ \A q \in 1..Len(o) : Len(o[q]) = Len(r)
     /\ \A j \in 1..Len(r) : \A q \in 1..Len(o) : Close(o[q][j], IF q = 3 THEN OyeF(r[j]) ELSE ref(r[j]), Tol(ev), Sc(ev))
(* along psi=0: u_z = gamma/2 (1 + Kzt), u_xi = -gamma/2 (tan(chi/2) + Kxit), and u_zeta = gamma/2 on the whole rotor plane *)
RotorPlaneOK(ev) ==     \* ev: legacy outputs (nout=7) at z=0, r<1
  LET o == O(ev) P == Pts(ev) m == A1(ev, "m") g == A1(ev, "g")
      th == (Sqrt(1 ++ Sq(m)) -- 1) // m
  IN \A j \in 1..Len(P) :
       /\ Close(o[5][j], g // 2, Tol(ev), Sc(ev))
       /\ FEq(P[j][2], 0) => /\ Close(o[1][j], (g // 2) ** (1 ++ KztRef(P[j][1], m)), Tol(ev), Sc(ev))
                             /\ Close(o[6][j], Neg(g // 2) ** (th ++ KxitRef(P[j][1], m)), Tol(ev), Sc(ev))
(* component rotations: preserve the norm, and are the projections on (cos,sin) and (-sin,cos) *)
SkewCompOK(ev) ==
  LET o == O(ev) x == Nums(ev.X) z == Nums(ev.Z) m == A1(ev, "m") cc == 1 // Sqrt(1 ++ Sq(m)) ss == m // Sqrt(1 ++ Sq(m)) IN
  \A j \in 1..Len(x) : Close(o[1][j], (z[j] ** cc) ++ (x[j] ** ss), Tol(ev), Sc(ev)) /\ Close(o[2][j], (x[j] ** cc) -- (z[j] ** ss), Tol(ev), Sc(ev))
PolarCompOK(ev) ==
  LET o == O(ev) x == Nums(ev.X) y == Nums(ev.Y) psi == Nums(ev.a.psi) IN
  \A j \in 1..Len(x) : LET w == ToPolar(psi[j], <<x[j], y[j], 0>>) IN Close(o[1][j], w[1], Tol(ev), Sc(ev)) /\ Close(o[2][j], w[2], Tol(ev), Sc(ev))

(* ---------------- loading ---------------- *)
CirculationOK(ev) ==
  LET k == O(ev)[1] r == Nums(ev.X) Ct == Nums(ev.a.Ct) L == A1(ev, "lam") IN
  /\ Len(k) = Len(r)
  /\ \A j \in 1..Len(r) :
       IF ev.a.swirl = "1"
       THEN IF Le(Ct[j], 0) \/ Le(r[j], 0) THEN FEq(k[j], 0) ELSE Close(k[j], KfromCt(Ct[j], L ** r[j], TRUE), Tol(ev), 1)
       ELSE Close(k[j], Ct[j], Lit("1e-12"), 1)
HighThrust(ce, on) == IF on /\ Gt(ce, CtC) THEN (ce -- (4 ** Sq(ac))) // (4 ** (1 -- (2 ** ac))) ELSE Half ** (1 -- Sqrt(1 -- ce))
(* o: a, a', Ct_KJ, Ct_eff, Ct_rot *)
ContOK(ev) ==
  LET o == O(ev) r == Nums(ev.X) k == Nums(ev.a.k) lr0 == Nums(ev.a.lr) n == Len(r)
      lr == IF FEq(lr0[1], 0) THEN [lr0 EXCEPT ![1] = Lit("0.01") ** lr0[2]] ELSE lr0
      sw == ev.a.swirl = "1"
      ap(j) == IF sw THEN k[j] // (4 ** Sq(lr[j])) ELSE 0
      g(j) == (8 ** Sq(lr[j]) ** Sq(ap(j))) // r[j]
      panel(j) == Half ** (g(j) ++ g(j+1)) ** (r[j+1] -- r[j])
      rot(i) == SumSeq(panel, i, n - 1)
      h(j) == IF j >= n THEN 0 ELSE FAbs(panel(j))
      slack(i) == Lit("0.2") ** (FMax(h(i), 0)) ++ Lit("1e-9")
      cq == IF "Cq" \in DOMAIN ev.a /\ ev.a.Cq # "" THEN Nums(ev.a.Cq) ELSE <<>>
  IN /\ \A q \in 1..5 : Len(o[q]) = n
     /\ \A j \in 1..n :
          /\ Close(o[3][j], k[j] ** (1 ++ ap(j)), Tol(ev), 1)
          /\ IF sw THEN Le(FAbs(o[5][j] -- rot(j)), slack(j)) ELSE FEq(o[5][j], 0)
          /\ Close(o[4][j], o[3][j] -- o[5][j], Tol(ev), 1)
          /\ Close(o[1][j], HighThrust(o[4][j], ev.a.high = "1"), Tol(ev), 1)
          /\ IF cq = <<>> THEN Close(o[2][j], ap(j), Tol(ev), 1)
             ELSE Close(o[2][j], cq[j] // (4 ** (1 -- o[1][j]) ** lr[j]), Tol(ev), 1)
(* o: gamma_t, gamma_l, Gamma_r, a, a', h *)
WakeContOK(ev) ==
  LET o == O(ev) r0 == Nums(ev.X) G == Nums(ev.a.G) R == A1(ev, "R") U0 == A1(ev, "U0") Om == A1(ev, "Om") n == Len(r0)
      r == IF FEq(r0[1], 0) THEN [r0 EXCEPT ![1] = Half ** r0[2]] ELSE r0
      dG(j) == IF j < n THEN G[j] -- G[j+1] ELSE G[n]
      sw == ev.a.swirl = "1"
      hh(j) == (U0 ** (1 -- (2 ** o[4][j])) ** 2 ** Pi) // (Om ** (1 ++ (2 ** o[5][j])))
      sc == FMax(Sc(ev), 0)
  IN /\ \A j \in 1..n :
          /\ Close(o[6][j], hh(j), Tol(ev), FAbs(hh(j)))
          /\ Close(o[1][j], Neg(dG(j)) // hh(j), Tol(ev), Sc(ev))
          /\ Close(o[5][j], IF sw THEN G[j] // (4 ** Pi ** Om ** Sq(r[j])) ELSE 0, Tol(ev), 1)
          /\ (sw => Close(o[2][j], dG(j) // (2 ** Pi ** r[j]), Tol(ev), Sc(ev)))
     /\ (IF sw THEN Close(o[3][1], Neg(G[1]), Tol(ev), FAbs(G[1])) ELSE FEq(o[3][1], 0) /\ FEq(o[2][1], 0))
     /\ (IF "aref" \in DOMAIN ev.a /\ ev.a.aref # "" THEN NumsClose(o[4], Nums(ev.a.aref), Tol(ev), 1) ELSE TRUE)
(* o: gamma_t, gamma_l ("" if none), Gamma_r ("" if none), a, a', h *)
DiscrStr(ev, variant) ==
  LET r == Nums(ev.X) U0 == A1(ev, "U0") R == A1(ev, "R") IN
  CASE ev.f = "WakeVorticityFromCirculation_Discr" ->
         LET G0 == Nums(ev.a.G) nB == A1(ev, "nB") G == [j \in 1..Len(r) |-> nB ** G0[j]]
         IN Strengths(r, G, IF ev.a.rcyl = "" THEN CylRadii(r, R) ELSE Nums(ev.a.rcyl), U0, A1(ev, "Om"), ev.a.swirl = "1", ev.a.tan = "1", ev.a.high = "1", variant)
    [] ev.f = "WakeVorticityFromGamma" -> StrengthsFromGamma(r, Nums(ev.a.G), R, U0, (A1(ev, "Om") ** R) // U0, variant)
    [] ev.f = "WakeVorticityFromCt"    -> StrengthsFromCt(r, Nums(ev.a.Ct), R, U0, (A1(ev, "Om") ** R) // U0, variant)
DiscrMatch(ev, variant) ==
  LET o == O(ev) s == DiscrStr(ev, variant) U0 == A1(ev, "U0") n == Len(Nums(ev.X))
      f(v) == LET g(j) == FAbs(v[j+1]) IN Sum(g, Len(v))
  IN /\ NumsClose(o[1], s.gt, Tol(ev), U0) /\ NumsClose(o[4], s.a, Tol(ev), 1) /\ NumsClose(o[5], s.ap, Tol(ev), 1)
     /\ (ev.f = "WakeVorticityFromCirculation_Discr" => NumsClose(o[6], s.h, Tol(ev), A1(ev, "R") ++ f(s.h)))
     /\ (IF s.swirl THEN NumsClose(o[2], s.gl, Tol(ev), U0) /\ Close(o[3][1], s.gr, Tol(ev), U0 ** A1(ev, "R"))
         ELSE o[2] = <<>> /\ o[3] = <<>>)
(* no net axial vorticity leaves the rotor, and the cumulated tangential strength is the far-wake deficit *)
BalanceOK(ev) ==
  LET o == O(ev) r == Nums(ev.X) n == Len(r) U0 == A1(ev, "U0")
      ax(j) == 2 ** Pi ** r[j+1] ** o[2][j+1]
      cum(i) == LET g(j) == o[1][j] IN SumSeq(g, i, n)
  IN /\ (o[2] # <<>> => Close(Sum(ax, n) ++ o[3][1], 0, Tol(ev), U0 ** A1(ev, "R")))
     /\ \A i \in 1..n : Close(cum(i), Neg(2 ** U0 ** o[4][i]), Tol(ev), U0)
StreamTubeOK(ev) ==
  LET o == O(ev) r == Nums(ev.X) Ct == Nums(ev.a.Ct) Cq == Nums(ev.a.Cq) L == A1(ev, "lam") IN
  \A j \in 1..Len(r) :
    LET a == Half ** (1 -- Sqrt(1 -- Ct[j])) IN
    /\ Close(o[1][j], a, Tol(ev), 1)
    /\ IF ev.a.swirl = "1" THEN Close(o[2][j], Cq[j] // (4 ** (1 -- a) ** L ** r[j]), Tol(ev), 1) ELSE FEq(o[2][1], 0)
CutoffOK(ev) ==
  LET o == O(ev) r == Nums(ev.X) C0 == A1(ev, "CT0") cut == A1(ev, "cut")
      tip == IF ev.a.tip = "" THEN Inf ELSE A1(ev, "tip") IN
  /\ Len(o[1]) = Len(r)
  /\ \A j \in 1..Len(r) :
       Close(o[1][j], IF Lt(tip, r[j]) THEN C0 ** (1 -- ((r[j] -- tip) // (1 -- tip))) ELSE IF Lt(r[j], cut) THEN (C0 ** r[j]) // cut ELSE C0, Tol(ev), 1)
GridOK(ev) ==
  LET o == O(ev) P == GridPos(ev) IN
  /\ \A q \in 1..3 : Len(o[q]) = Len(P)
  /\ \A i \in 1..Len(P) : VClose(At(o, i), P[i], Lit("1e-12"), 1 ++ Norm(P[i]))

KernelHolds(cl, ev, tr) ==
  CASE cl = "kabs"    -> ev.out = "ok" /\ KAbs(ev)
    [] cl = "kaxial"  -> ev.out = "ok" /\ KAbsAxial(ev)
    [] cl = "krel"    -> \A q \in 1..Len(ev.rel) : KRel(ev, tr, ev.rel[q])
    [] cl = "core"    -> ev.out = "ok" /\ (IF ev.f = "vl_semiinf_u" THEN LineCore(ev) ELSE RingCore(ev))
    [] cl = "reg"     -> ev.out = "ok" /\ TangReg(ev)
    [] cl = "num"     -> ev.out = "ok" /\ DLineNum(ev)
    [] cl = "elliptic" -> ev.out = "ok" /\ EllipticOK(ev)
    [] cl = "points"  -> ev.out = "ok" /\ (IF ev.f = "vp_u" THEN PointOK(ev) ELSE PointsOK(ev))
    [] cl = "integral" -> ev.out = "ok" /\ IntegralOK(ev)
    [] cl = "kfun"    -> ev.out = "ok" /\ KfunOK(ev)
    [] cl = "rotor"   -> ev.out = "ok" /\ RotorPlaneOK(ev)
    [] cl = "comp"    -> ev.out = "ok" /\ (IF ev.f = "skew_components" THEN SkewCompOK(ev) ELSE PolarCompOK(ev))
    [] cl = "circ"    -> ev.out = "ok" /\ CirculationOK(ev)
    [] cl = "cont"    -> ev.out = "ok" /\ ContOK(ev)
    [] cl = "wakecont" -> ev.out = "ok" /\ WakeContOK(ev)
    [] cl = "discr"   -> ev.out = "ok" /\ DiscrMatch(ev, "exact")
    [] cl = "discrfound" -> ev.out = "ok" /\ (DiscrMatch(ev, "exact") \/ DiscrMatch(ev, "asfound"))
    [] cl = "balance" -> ev.out = "ok" /\ BalanceOK(ev)
    [] cl = "tube"    -> ev.out = "ok" /\ StreamTubeOK(ev)
    [] cl = "cutoff"  -> ev.out = "ok" /\ CutoffOK(ev)
    [] cl = "grid"    -> ev.out = "ok" /\ GridOK(ev)
=============================================================================
