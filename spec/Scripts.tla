------------------------------- MODULE Scripts -------------------------------
(* What the scripts around the library build and print: the turbines and farms the article builders describe, the     *)
(* points their section functions evaluate, profiles of stored planes, and the textual descriptions.                 *)
EXTENDS Turbine, Events, FiniteSets

NearNums(a, b, t) == LET x == Nums(a) y == Nums(b) IN Len(x) = Len(y) /\ \A q \in 1..Len(x) : Close(x[q], y[q], t, 1 ++ FAbs(y[q])) \/ (IsInf(x[q]) /\ FEq(x[q], y[q]))
NearVec(a, v) == VClose(Nums(a), v, Lit("1e-12"), 1 ++ Norm(v))

(* --- setupModel(CT, HH, Lambda, Yaw [deg], U0, gamma_t, Model): one turbine of radius 1 at height HH, wind turned by Yaw,  *)
(* wake deflected by the corrected angle, constant thrust, or with swirl thrust cut linearly below r = 0.1 and 30 cylinders *)
ModelBuilt(s, a) ==
  LET yaw == (Lit(a.Yaw) ** Pi) // 180
      CT  == Lit(a.CT)
      U0  == Lit(a.U0)
      swirl == Lt(Lit(a.Lambda), 30)
      r == Nums(s.load.r)
      v == Nums(s.load.v)
      cut(x) == IF swirl /\ Lt(x, Lit("0.1")) THEN (CT ** x) // Lit("0.1") ELSE CT
  IN /\ FEq(Lit(s.R), 1) /\ NearVec(s.shaft, <<0, 0, 1>>) /\ NearVec(s.vert, <<0, 1, 0>>) /\ FEq(Lit(s.yaw), 0)
     /\ NearVec(s.hub, <<0, Lit(a.HH), 0>>) /\ NearVec(s.wind, <<U0 ** Sin(yaw), 0, U0 ** Cos(yaw)>>)
     /\ Close(Lit(s.chi), yaw ** (1 ++ (Lit("0.3") ** (1 -- Sqrt(1 -- CT)))), Lit("1e-12"), 1)
     /\ (s.ground <=> Lt(Lit(a.HH), 9)) /\ s.model = a.Model
     /\ IF a.gamma # "" \/ a.mid # ""
        THEN \* strength given, or such that the axial velocity at the centre of a straight wake is the one given
             /\ s.load.kind = "fun" /\ s.load.ncyl = 1
             /\ LET c == Nums(s.load.law)
                   IN FEq(c[2], 0) /\ Close(c[1], IF a.gamma # "" THEN Lit(a.gamma) ELSE Neg(2 ** ((U0 ** Cos(yaw)) -- Lit(a.mid))), Lit("1e-12"), 1 ++ FAbs(U0))
        ELSE /\ s.load.kind = "Ct" /\ NearVec(s.load.wind, Nums(s.wind)) /\ NearNums(s.load.lam, a.Lambda, Lit("1e-12")) /\ s.load.ncyl = (IF swirl THEN 30 ELSE 1)
             /\ Len(r) = 100 /\ Len(v) = 100 /\ \A q \in 1..100 : Close(r[q], (q - 1) // 99, Lit("1e-12"), 1) /\ Close(v[q], cut(r[q]), Lit("1e-12"), 1)

(* points of the sections, in order, from the arguments of the section function *)
SectionPts(s, ev) ==
  LET HH == SHub(s)[2]
      a1 == Nums(ev.a1) a2 == Nums(ev.a2)
      n1 == Len(a1) n2 == Len(a2) IN
  CASE ev.fn = "fU"     -> LET a3 == Nums(ev.a3) IN [j \in 1..n1 |-> <<a1[j], a2[j] ++ HH, a3[j]>>]
    [] ev.fn = "fHorz"  -> [j \in 1..n1*n2 |-> <<a1[((j-1) % n1) + 1], HH, a2[((j-1) \div n1) + 1]>>]
    [] ev.fn = "fVert"  -> [j \in 1..n1*n2 |-> <<0, a1[((j-1) % n1) + 1] ++ HH, a2[((j-1) \div n1) + 1]>>]
    [] ev.fn = "fAxial" -> [j \in 1..n1 |-> <<0, HH, a1[j]>>]
    [] ev.fn = "fRadial" -> [j \in 1..n1 |-> IF ev.horizontal = "1" THEN <<a1[j], HH, a2[1]>> ELSE <<0, a1[j] ++ HH, a2[1]>>]
SectionOK(s, ev) ==
  LET P == Pts(ev) S == SectionPts(s, ev) n == Len(S) IN
  /\ Len(P) = n /\ \A j \in 1..n : VClose(P[j], S[j], Lit("1e-12"), 1 ++ Norm(S[j]))
  /\ (ev.fn \in {"fHorz", "fVert"} =>       \* the grid of the section comes back with it
        LET g1 == Nums(ev.g1) g2 == Nums(ev.g2) a1 == Nums(ev.a1) a2 == Nums(ev.a2) IN
        /\ ev.gsh = <<Len(a2), Len(a1)>> /\ Len(g1) = n /\ Len(g2) = n
        /\ \A j \in 1..n : FEq(g1[j], a1[((j-1) % Len(a1)) + 1]) /\ FEq(g2[j], a2[((j-1) \div Len(a1)) + 1]))
(* the components asked for *)
PartAbs(s, ev) ==
  LET o == O(ev) P == Pts(ev) w == Vorticity(s, "asfound") cs == Contributions(s, ev.o_, w) IN
  /\ Len(o) = Len(ev.comps)
  /\ \A q \in 1..Len(o) : Len(o[q]) = Len(P)
  /\ \A j \in 1..Len(P) : LET v == Velocity(s, ev.o_, cs, P[j]) IN \A q \in 1..Len(o) : Close(o[q][j], v[ev.comps[q]], Tol(ev), Sc(ev))

(* --- farms of the article: rows along the wind x, columns along y, one thrust per turbine --- *)
FarmBuilt(m, a) ==     \* m: settings of the members in order
  LET nx == a.nx ny == a.ny S == Lit(a.S) CT == Nums(a.CTs) half == nx \div 2 IN
  /\ Len(m) = nx * ny
  /\ \A k \in 1..Len(m) :
       LET s == m[k] col == (k-1) % nx row == (k-1) \div nx
           y == IF a.pos = "" THEN (col - half) ** S ELSE Nums(a.pos)[3*k - 1]
           x == IF a.pos = "" THEN row ** S ELSE Nums(a.pos)[3*k - 2]
           z == IF a.pos = "" THEN Lit(a.HH) ELSE Nums(a.pos)[3*k]
           ct == IF a.pos = "" THEN CT[(col * ny) + row + 1] ELSE CT[k]
       IN /\ FEq(Lit(s.R), Half) /\ NearVec(s.shaft, <<1, 0, 0>>) /\ NearVec(s.vert, <<0, 0, 1>>) /\ FEq(Lit(s.yaw), 0) /\ s.chi = "auto"
          /\ NearVec(s.hub, <<x, y, z>>) /\ NearVec(s.wind, <<1, 0, 0>>) /\ NearVec(s.load.wind, <<1, 0, 0>>)
          /\ (a.pos = "" => (s.ground <=> Lt(Lit(a.HH), 10)) /\ s.model = a.Model)
          /\ (a.pos # "" => ~s.ground /\ s.model = "VC")
          /\ s.load.ncyl = 1 /\ Close(Mean(Nums(s.load.v)), ct, Lit("1e-12"), 1)
          /\ IF a.law = "" THEN s.load.kind = "Ct" /\ IsInf(Lit(s.load.lam)) ELSE s.load.kind = "fun" /\ NearNums(s.load.law, a.law, Lit("1e-12"))

(* the velocity along lines through a farm described by positions and thrusts: ground effect if the last turbine is low;   *)
(* line: 1 through the first set of points, 2 through the second, which is read for farms of several turbines only        *)
FarmLineOK(m, ev, v(_)) ==   \* v(j): velocity of the farm at point j (without the wind)
  LET o == O(ev) P == Pts(ev) low == Lt(SHub(m[Len(m)])[3], 10)
  IN /\ Len(o) = 1 /\ Len(o[1]) = Len(P) /\ (ev.o_.ground = IF low THEN "1" ELSE "0") /\ ev.o_.model = "VC" /\ ev.o_.no_wake = 0
     /\ \A j \in 1..Len(P) : Close(o[1][j], IF ev.line = 2 /\ Len(m) = 1 THEN 0 ELSE 1 ++ v(j)[1], Tol(ev), Sc(ev))

(* --- profiles of a stored plane: the column (or row) nearest to the axis (or to z0), linearly interpolated --- *)
NearestIdx(v, x) == CHOOSE q \in 1..Len(v) : (\A k \in 1..Len(v) : Le(FAbs(v[q] -- x), FAbs(v[k] -- x))) /\ (\A k \in 1..q-1 : Lt(FAbs(v[q] -- x), FAbs(v[k] -- x)))
ProfileOK(ev) ==
  LET x == Nums(ev.a.x) z == Nums(ev.a.z) q0 == Nums(ev.X) o == O(ev)
      nx == Len(x)
      F(w, iz, ix) == w[((iz - 1) * nx) + ix]
      fld == <<Nums(ev.a.U), Nums(ev.a.V), Nums(ev.a.W)>>
      ix0 == NearestIdx(x, 0)
      iz0 == NearestIdx(z, Lit(ev.a.z0))
      col(w) == [iz \in 1..Len(z) |-> F(w, iz, ix0)]
      row(w) == [ix \in 1..nx |-> F(w, iz0, ix)]
  IN CASE ev.f = "fAxial"  -> Len(o) = 3 /\ \A q \in 1..3 : Len(o[q]) = Len(q0) /\ \A j \in 1..Len(q0) : Close(o[q][j], Interp(q0[j], z, col(fld[q])), Tol(ev), Sc(ev))
       [] ev.f = "fRadial" -> Len(o) = 3 /\ \A q \in 1..3 : Len(o[q]) = Len(q0) /\ \A j \in 1..Len(q0) : Close(o[q][j], Interp(q0[j], x, row(fld[q])), Tol(ev), Sc(ev))
       [] ev.f = "fCenter" -> FEq(o[1][1], F(fld[3], NearestIdx(z, 0), ix0))
       [] ev.f = "find_nearest" -> LET k == NearestIdx(x, q0[1]) IN FEq(o[1][1], x[k]) /\ FEq(o[2][1], k - 1)
       [] ev.f \in {"fU", "fW"} -> \* interpolants: the stored values at the nodes, pairwise, in the shape asked
            LET zz == Nums(ev.Y) w == <<fld[1], fld[2], fld[3]>> node(v, p) == NearestIdx(v, p) IN
            /\ \A j \in 1..Len(q0) : FEq(x[node(x, q0[j])], q0[j]) /\ FEq(z[node(z, zz[j])], zz[j])
            /\ \A q \in 1..3 : Len(o[q]) = Len(q0) /\ ev.sho[q] = ev.shi
            /\ \A q \in 1..3 : \A j \in 1..Len(q0) :
                 Close(o[q][j], IF q = ev.a.zero \/ (ev.f = "fW" /\ q # 3) THEN 0 ELSE F(w[q], node(z, zz[j]), node(x, q0[j])), Tol(ev), Sc(ev))
(* error measures between two axial profiles *)
ErrorOK(ev) ==
  LET X == Nums(ev.a.x) u1 == Nums(ev.a.u1) u2 == Nums(ev.a.u2) o == O(ev)[1][1]
      at(x) == (FAbs(Interp(x, X, u1) -- Interp(x, X, u2)) // Interp(x, X, u1)) ** 100
      lo == Lit(ev.a.lo) hi == Lit(ev.a.hi)
      f(k) == LET x == lo ++ (((hi -- lo) ** k) // 99)
              IN (FAbs(Interp(x, X, u1) -- Interp(x, X, u2)) // Interp(x, X, u1))
  IN CASE ev.f = "relerrinduction"     -> Close(o, Sum(f, 100), Tol(ev), Sc(ev))
       [] ev.f = "relerrinduction_mid" -> Close(o, at(0), Tol(ev), Sc(ev))
       [] ev.f = "relerrinduction_25"  -> Close(o, at(Lit("-2.5")), Tol(ev), Sc(ev))
       [] ev.f = "gamma_CT_fun" -> LET p == Nums(ev.a.p) c == Lit(ev.a.ct) IN
            Close(o, Neg(2 ** (c ** (p[1] ++ (c ** (p[2] ++ (c ** (p[3] ++ (c ** p[4])))))))), Tol(ev), Sc(ev))

(* --- rotations and changes of frame ---------------------------------------------------------------------------------- *)
Col(M, k) == <<M[k], M[3 + k], M[6 + k]>>            \* column of a matrix written row by row
Row(M, k) == <<M[3*k - 2], M[3*k - 1], M[3*k]>>
FrameOK(ev) ==
  LET o == O(ev) IN
  CASE ev.f = "RotMat_AxisAngle" -> LET u == Nums(ev.a.u) th == Lit(ev.a.th) M == o[1] IN
            /\ Len(M) = 9 /\ ev.sho[1] = <<3, 3>>
            /\ VClose(Col(M, 1), Rotate(u, th, <<1,0,0>>), Tol(ev), 1) /\ VClose(Col(M, 2), Rotate(u, th, <<0,1,0>>), Tol(ev), 1) /\ VClose(Col(M, 3), Rotate(u, th, <<0,0,1>>), Tol(ev), 1)
    [] ev.f = "orth_vect" -> LET u == Nums(ev.a.u) v == o[1] IN
            /\ Len(v) = 3 /\ ev.sho[1] = <<3, 1>> /\ Close(Norm(v), 1, Tol(ev), 1) /\ Le(FAbs(Dot(u, v)), Tol(ev) ** Norm(u))
    [] ev.f \in {"transform", "transform_T"} ->       \* with the matrix, or with its transpose
         LET M == Nums(ev.a.M) P == Pts(ev)
             g(p) == IF ev.f = "transform" THEN <<Dot(Row(M, 1), p), Dot(Row(M, 2), p), Dot(Row(M, 3), p)>> ELSE <<Dot(Col(M, 1), p), Dot(Col(M, 2), p), Dot(Col(M, 3), p)>>
         IN Len(o) = 3 /\ Len(o[1]) = Len(P) /\ \A j \in 1..Len(P) : VClose(At(o, j), g(P[j]), Tol(ev), Sc(ev) ** (1 ++ Norm(P[j])))
(* --- what is printed about a turbine (numbers as printed; 4 decimals for the matrices) --- *)
Deg(x) == (x ** Pi) // 180
SameAngleTol(a, b, t) == Le(FAbs(Sin((a -- b) // 2)), t)
PrintTol(v) == Lit("1e-7") ** FMax(1, v)
DescribeOK(s, ev) ==
  LET big(v) == FMax(FAbs(v[1]), FMax(FAbs(v[2]), FAbs(v[3])))
      near(txt, v) == Len(Nums(txt)) = 3 /\ \A q \in 1..3 : Le(FAbs(Nums(txt)[q] -- v[q]), PrintTol(big(v)))
      d4 == Lit("0.5001e-4") ++ Lit("1e-9")
      mat(txt, c1, c2, c3) == LET x == Nums(txt) IN Len(x) = 9 /\ \A q \in 1..3 : Close(x[3*q - 2], c1[q], d4, 1) /\ Close(x[3*q - 1], c2[q], d4, 1) /\ Close(x[3*q], c3[q], d4, 1)
      ax == Axes(s)
      rot(v) == Rotate(SVert(s), Lit(s.yaw), v)
      horiz == Le(FAbs(Dot(SVert(s), SWind(s))), Lit("1e-9") ** Norm(SWind(s)))
  IN /\ ev.name = ev.wname
     /\ Close(Lit(ev.R), Lit(s.R), Lit("1e-15"), Lit(s.R)) /\ near(ev.hub, SHub(s)) /\ near(ev.wind, SWind(s))
     /\ (horiz => \A q \in 1..Len(Nums(ev.yerr)) : SameAngleTol(Deg(Nums(ev.yerr)[q]), YawError(s), Lit("1e-6")))
     /\ Len(Nums(ev.yerr)) = (IF ev.short = "1" THEN 1 ELSE 2)
     /\ (ev.short # "1" =>
           /\ SameAngleTol(Deg(Lit(ev.wd)), YawWind(s), Lit("1e-6"))
           /\ Close(Deg(Lit(ev.yaw)), Lit(s.yaw), Lit("1e-12"), 1 ++ FAbs(Lit(s.yaw)))
           /\ \A q \in 1..3 : Close(Nums(ev.shaft)[q], Shaft(s)[q], d4, 1)
           /\ mat(ev.c2g, ax[1], ax[2], ax[3])
           /\ LET z0 == Shaft0(s) y0 == SVert(s) IN mat(ev.c2wt, Cross(y0, z0), y0, z0) /\ mat(ev.f2g, z0, Cross(y0, z0), y0)
           /\ mat(ev.wt2g, rot(<<1,0,0>>), rot(<<0,1,0>>), rot(<<0,0,1>>)))
(* and about a farm: the number of turbines and where they are *)
FarmDescribeOK(m, ev) ==
  /\ ev.name = ev.wname /\ ev.n = Len(m) /\ Len(ev.rows) = Len(m)
  /\ LET mx == LET RECURSIVE b(_) b(k) == IF k = 0 THEN 1 ELSE FMax(b(k-1), FMax(FAbs(SHub(m[k])[1]), FMax(FAbs(SHub(m[k])[2]), FAbs(SHub(m[k])[3])))) IN b(Len(m))
     IN \A k \in 1..Len(m) : \A q \in 1..3 : Le(FAbs(Nums(ev.rows[k])[q] -- SHub(m[k])[q]), Lit("1e-7") ** mx)
=============================================================================
