----------------------------- MODULE WizTrace -----------------------------
(* Checks traces recorded from the real code. A trace file holds chunks (independent histories); an event records one *)
(* public call: its arguments (ev.op and the fields of the action in Wiz.tla), its outcome (ev.out), its results      *)
(* (ev.o), the caller's arrays before and after (ev.pre, ev.post), and the clauses to decide on it (ev.chk).          *)
(* The state follows Wiz!Step; verdicts are total: the failing clauses of every event are printed and collected.      *)
EXTENDS Wiz, Turbine, KernelSpec, Scripts, Stores, Plots, Coupling, Json, IOUtils, FiniteSets, SequencesExt

Traces == JsonDeserialize(IOEnv.WIZ_TRACE)
NChunks == Len(Traces)

VARIABLES c, i, st, memo
vars == <<c, i, st, memo>>

Ev(k) == Traces[c][k]
IsNaN(x) == ~FEq(x, x)

(* ---------------- absolute clauses of turbine queries ---------------- *)
AbsVelocity(s, ev) ==
  LET o == O(ev)
      P == Pts(ev)
      ok(variant) == LET w == Vorticity(s, variant) cs == Contributions(s, ev.o_, w)
                     IN \A j \in 1..Len(P) : VClose(At(o, j), Velocity(s, ev.o_, cs, P[j]), Tol(ev), Sc(ev))
  IN Len(o) = 3 /\ Len(o[1]) = Len(P) /\ (ok("asfound") \/ (NCyl(s) > 1 /\ ok("exact")))

AngTol == Lit("1e-6")
SameAngle(a, b) == Le(FAbs(Sin((a -- b) // 2)), AngTol)
InPi(a) == Le(FAbs(a), Pi ++ Lit("1e-12"))
WindAngleOK(s, ev) == LET w == Lit(ev.yw) IN InPi(w) /\ SameAngle(w, YawWind(s))
AnglesOK(s, ev) ==
  LET w == Lit(ev.yw) e == Lit(ev.ye)
  IN /\ InPi(w) /\ SameAngle(w, YawWind(s))
     /\ InPi(e) /\ SameAngle(e, YawError(s))
     /\ SameAngle(e, Lit(s.yaw) -- w)          \* consistent modulo a full turn
(* what the turbine says of the loading it was given: stations, tip speed ratio and thrust coefficients ("" where there is none) *)
LoadingOK(s, ev) ==
  LET r == Nums(ev.r) x == LoadStations(s) IN
  /\ Len(r) = Len(x) /\ \A j \in 1..Len(x) : Close(r[j], x[j], Lit("1e-12"), Lit(s.R))
  /\ FEq(Lit(ev.lam), Lit(s.load.lam))
  /\ IF s.load.kind = "Gamma" THEN ev.Ct = ""
     ELSE LET v == LoadValues(s) C == Nums(ev.Ct) IN Len(C) = Len(v) /\ \A j \in 1..Len(v) : Close(C[j], v[j], Lit("1e-12"), 1)
(* the skew angle of the wake after a query *)
SkewOK(s, ev) == LET x == Lit(ev.chi) IN IF s.chi = "auto" THEN InPi(x) /\ SameAngle(x, Chi(s)) ELSE FEq(x, Lit(s.chi))
DiskOK(s, ev) ==
  LET o  == O(ev)
      n  == Len(o[1])
      R  == Lit(s.R)
      d  == [j \in 1..n |-> VSub(At(o, j), SHub(s))]
      zs == Shaft(s)
      tl == Lit("1e-9")
      stp == (2 ** Pi) // (n - 1)
      sc  == R ++ Norm(SHub(s))
  IN /\ n = ev.n
     /\ \A j \in 1..n : Close(Norm(d[j]), R, tl, sc) /\ Close(Dot(d[j], zs), 0, tl, sc)
     /\ VClose(d[1], d[n], tl, sc)
     \* equally spaced, always turning the same way
     /\ \A j \in 1..n-1 : VClose(d[j+1], Rotate(zs, stp, d[j]), Lit("1e-8"), sc) \/ VClose(d[j+1], Rotate(zs, Neg(stp), d[j]), Lit("1e-8"), sc)
     /\ (n > 3 => \A j \in 1..n-2 : ~VClose(d[j+2], d[j], Lit("1e-4"), R))
LayoutOK(ev) ==
  LET L == Layout(st, ev.f)
  IN /\ ev.shape = <<Len(L), 3>>
     /\ Len(ev.rows) = Len(L)
     /\ \A k \in 1..Len(L) : NumsClose(Nums(ev.rows[k]), Nums(L[k]), Lit("1e-15"), 1)
(* what is read is what was last saved under that name; velocities divided by the reference speed given at saving *)
FileOK(ev) ==
  LET d == st.disk[ev.key]
      U0 == IF d.U0 # "" THEN Lit(d.U0) ELSE 1
      SameNum(x, y) == FEq(x, y) \/ (~FEq(x, x) /\ ~FEq(y, y))
      rt(q) == IF d.dtype[q] = "<f4" THEN Lit("1e-6") ELSE Lit("1e-14")
      Val(q, x, y) == IF d.U0 = "" \/ q <= 2 THEN SameNum(x, y) ELSE SameNum(x // U0, y) \/ Close(y, x // U0, rt(q), FAbs(y))
  IN /\ ev.data.kind = d.kind
     /\ Len(ev.data.v) = Len(d.v)
     /\ IF d.kind = "plane"
        THEN \A q \in 1..Len(d.v) :
               LET x == Nums(d.v[q]) y == Nums(ev.data.v[q])
               IN /\ ev.data.shape[q] = d.shape[q]
                  /\ (d.U0 = "" \/ q <= 2 => ev.data.dtype[q] = d.dtype[q])
                  /\ Len(x) = Len(y) /\ \A j \in 1..Len(x) : Val(q, x[j], y[j])
        ELSE ev.data = d
RejectOK(a) == IF Accepts(st, a) THEN a.out = "ok" ELSE a.out # "ok"

(* ---------------- relations between queries ---------------- *)
SettingsClose(s, u, f(_)) ==    \* u is s after the map f of directions; positions are compared by the caller
  /\ VClose(Nums(u.vert), f(Nums(s.vert)), Lit("1e-9"), 1)
  /\ VClose(Shaft(u), f(Shaft(s)), Lit("1e-9"), 1)
  /\ VClose(Nums(u.wind), f(Nums(s.wind)), Lit("1e-9"), Norm(Nums(s.wind)))
  /\ Close(Lit(u.R), Lit(s.R), Lit("1e-12"), Lit(s.R)) /\ u.model = s.model /\ u.ground = s.ground
  /\ u.load.kind = s.load.kind /\ u.load.v = s.load.v /\ u.load.r = s.load.r /\ u.load.ncyl = s.load.ncyl /\ u.load.lam = s.load.lam /\ u.load.law = s.load.law
SameOpts(a, b) == a.o_ = b.o_
(* state in which an earlier event of this chunk was evaluated: recorded by index *)
SAt(k) == memo[k]

RelHolds(ev, s, r) ==
  LET o == O(ev) P == Pts(ev) t == Tol(ev) sc == Sc(ev) n == Len(P) IN
  CASE r.k = "rigid" ->      \* everything rotated by angle about axis (through the origin) and shifted
         LET a  == Ev(r.a)
             oa == O(a)
             Pa == Pts(a)
             ax == Nums(r.axis)
             g(v) == Rotate(ax, Lit(r.angle), v)
             sh == Nums(r.shift)
             s0 == SAt(r.a)
         IN /\ SettingsClose(s0, s, g) /\ SameOpts(a, ev)
            /\ VClose(SHub(s), VAdd(g(SHub(s0)), sh), Lit("1e-9"), 1 ++ Norm(SHub(s)))
            /\ ((s.ground \/ ev.o_.ground = "1") => Le(FAbs(Dot(sh, SVert(s))), Lit("1e-9")))
            /\ Len(Pa) = n
            /\ \A j \in 1..n : VClose(P[j], VAdd(g(Pa[j]), sh), Lit("1e-9"), 1 ++ Norm(P[j]))
            /\ \A j \in 1..n : VClose(At(o, j), g(At(oa, j)), t, sc)
    [] r.k = "rigidfarm" ->  \* the same for a farm: member q is member map[q] of the other farm, moved (the settings are not changed between the two)
         LET a  == Ev(r.a)
             oa == O(a)
             Pa == Pts(a)
             g(v) == Rotate(Nums(r.axis), Lit(r.angle), v)
             sh == Nums(r.shift)
             m1 == [q \in 1..Len(Members(st, ev.f)) |-> st.wt[Members(st, ev.f)[q]]]
             m0 == [q \in 1..Len(Members(st, a.f)) |-> st.wt[Members(st, a.f)[q]]]
         IN /\ Len(m1) = Len(m0) /\ {r.map[q] : q \in 1..Len(r.map)} = 1..Len(m0) /\ Len(r.map) = Len(m1) /\ SameOpts(a, ev)
            /\ \A q \in 1..Len(m1) : LET u == m1[q] s0 == m0[r.map[q]] IN
                 /\ SettingsClose(s0, u, g) /\ VClose(SHub(u), VAdd(g(SHub(s0)), sh), Lit("1e-9"), 1 ++ Norm(SHub(u)))
                 /\ ((u.ground \/ ev.o_.ground = "1") => Le(FAbs(Dot(sh, SVert(u))), Lit("1e-9")))
            /\ VClose(Nums(ev.U0), g(Nums(a.U0)), Lit("1e-12"), 1 ++ Norm(Nums(ev.U0)))
            /\ Len(Pa) = n
            /\ \A j \in 1..n : VClose(P[j], VAdd(g(Pa[j]), sh), Lit("1e-9"), 1 ++ Norm(P[j])) /\ VClose(At(o, j), g(At(oa, j)), t, sc)
    [] r.k = "mirror" ->     \* ground effect = alone at the point + reflection of alone at the mirrored point
         LET a == Ev(r.a) b == Ev(r.b) oa == O(a) ob == O(b) Pa == Pts(a) Pb == Pts(b)
         IN /\ OGround(s, ev.o_) /\ ~OGround(s, a.o_) /\ ~OGround(s, b.o_)
            /\ SAt(r.a) = s /\ SAt(r.b) = s
            /\ \A j \in 1..n : VClose(Pa[j], P[j], 0, 1) /\ VClose(Pb[j], MirrorPt(s, P[j]), Lit("1e-9"), 1 ++ Norm(P[j]))
            /\ \A j \in 1..n : VClose(At(o, j), VAdd(At(oa, j), Reflect(SVert(s), At(ob, j))), t, sc)
    [] r.k = "noflow" ->     \* points of the ground plane, no normal velocity
         LET mm == IF ev.op = "FarmQuery" THEN [q \in 1..Len(Members(st, ev.f)) |-> st.wt[Members(st, ev.f)[q]]] ELSE <<s>>
             vv == SVert(mm[1])
         IN /\ \A q \in 1..Len(mm) : mm[q].vert = mm[1].vert /\ OGround(mm[q], ev.o_)
            /\ \A j \in 1..n : Le(FAbs(Dot(vv, P[j])), Lit("1e-12") ** (1 ++ Norm(P[j])))
            /\ \A j \in 1..n : Le(FAbs(Dot(vv, At(o, j))), t ** sc)
    [] r.k = "mask" ->       \* zero inside the masked region, the unmasked value elsewhere
         LET a == Ev(r.a) oa == O(a) wnd == IF ev.o_.only_ind = 1 THEN VZero ELSE SWind(s)
         IN /\ SAt(r.a) = s /\ a.o_ = [ev.o_ EXCEPT !.no_wake = 0] /\ a.X = ev.X /\ a.Y = ev.Y /\ a.Z = ev.Z
            /\ \A j \in 1..n : VClose(At(o, j), IF InMask(s, P[j]) THEN wnd ELSE At(oa, j), t, sc)
    [] r.k = "wind" ->       \* the wind once, everywhere
         LET a == Ev(r.a) oa == O(a)
         IN /\ SAt(r.a) = s /\ ev.o_.only_ind = 0 /\ a.o_ = [ev.o_ EXCEPT !.only_ind = 1] /\ a.X = ev.X /\ a.Y = ev.Y /\ a.Z = ev.Z
            /\ \A j \in 1..n : VClose(At(o, j), VAdd(At(oa, j), SWind(s)), t, sc)
    [] r.k = "subset" ->     \* own point j is point map[j] of the other call
         LET a == Ev(r.a) oa == O(a) Pa == Pts(a)
         IN /\ SAt(r.a) = s /\ SameOpts(a, ev)
            /\ \A j \in 1..n : VClose(P[j], Pa[r.map[j]], 0, 1) /\ VClose(At(o, j), At(oa, r.map[j]), t, sc)
    [] r.k = "sum" ->        \* requested components add up
         LET f(q) == At(O(Ev(r.a[q+1])), 1) IN
         /\ \A q \in 1..Len(r.a) : SAt(r.a[q]) = s /\ Ev(r.a[q]).X = ev.X /\ Ev(r.a[q]).Y = ev.Y /\ Ev(r.a[q]).Z = ev.Z
         /\ \A j \in 1..n : LET g(q) == At(O(Ev(r.a[q+1])), j) IN VClose(At(o, j), SumV(g, Len(r.a), 3), t, sc)
    [] r.k = "override" ->   \* same answer as the other query, whose turbine carries the option as its own setting
         LET a == Ev(r.a) u == SAt(r.a) IN
         /\ u = [s EXCEPT !.ground = u.ground, !.model = u.model]
         /\ OGround(s, ev.o_) = OGround(u, a.o_) /\ OModel(s, ev.o_) = OModel(u, a.o_)
         /\ a.o_ = [ev.o_ EXCEPT !.ground = a.o_.ground, !.model = a.o_.model] /\ a.X = ev.X /\ a.Y = ev.Y /\ a.Z = ev.Z
         /\ a.out = ev.out /\ AllClose(o, O(a), t, sc)
    [] r.k = "scale" ->      \* lengths scaled by sl, wind by su: velocities scaled by su
         LET a == Ev(r.a) oa == O(a) Pa == Pts(a) sl == Lit(r.sl) su == Lit(r.su) s0 == SAt(r.a) IN
         /\ VClose(SWind(s), VScale(su, SWind(s0)), Lit("1e-12"), Norm(SWind(s))) /\ Close(Lit(s.R), sl ** Lit(s0.R), Lit("1e-12"), Lit(s.R))
         /\ \A j \in 1..n : VClose(P[j], VScale(sl, Pa[j]), Lit("1e-12"), Norm(P[j])) /\ VClose(At(o, j), VScale(su, At(oa, j)), t, sc)
    [] r.k = "stencil" ->    \* groups of 12 points c +- h e_i, c +- 2h e_i: 4th-order differences; the divergence vanishes and the curl is
                             \* that of the ends of the trailed vortex lines (none for a farm: only asked for tangential vorticity)
         LET h == Lit(r.h)
             g == n \div 12
             D(b, ax, q) ==  \* d u_q / d x_ax of group b; order: ax major, offsets +h,-h,+2h,-2h
               LET k == (12 * b) + (4 * (ax - 1))
               IN ((8 ** (o[q][k+1] -- o[q][k+2])) -- (o[q][k+3] -- o[q][k+4])) // (12 ** h)
             ctr(b) == VScale(Half, VAdd(P[(12 * b) + 1], P[(12 * b) + 2]))
             w == IF ev.op = "Query" THEN Vorticity(s, "asfound") ELSE <<>>
             ends(b) == IF ev.op = "Query" THEN EndCurl(s, ev.o_, Contributions(s, ev.o_, w), ctr(b)) ELSE VZero
         IN /\ (ev.op = "FarmQuery" => (ev.o_.longi = 0 /\ ev.o_.root = 0))
            /\ \A b \in 0..g-1 :
              /\ Le(FAbs(D(b,1,1) ++ D(b,2,2) ++ D(b,3,3)), t ** sc)
              /\ VClose(<<D(b,2,3) -- D(b,3,2), D(b,3,1) -- D(b,1,3), D(b,1,2) -- D(b,2,1)>>, ends(b), t, sc)
    [] r.k = "loop" ->       \* circulation around the closed polygonal loop of (dense, periodic) points equals r.val
         LET f(j) == LET nx == P[((j + 1) % n) + 1] pv == P[((j + n - 1) % n) + 1]
                     IN Half ** Dot(At(o, j + 1), VSub(nx, pv))
         IN Close(Sum(f, n), Lit(r.val), t, sc)
    [] r.k = "axis" ->       \* one-cylinder loading: axial deficit at the rotor centre is half the far-wake one
         LET w == Vorticity(s, "asfound") IN
         \A j \in 1..n : Close(Dot(At(o, j), Shaft(s)), w.gt[1] // 2, t, sc)
    [] r.k = "total" ->      \* farms: the members of the other farms together
         LET other == FlattenSeq([q \in 1..Len(r.a) |-> Members(st, Ev(r.a[q]).f)])
             own == Members(st, ev.f)
             times(x, y) == Cardinality({q \in 1..Len(y) : y[q] = x})
         IN /\ Len(own) = Len(other)
            /\ \A q \in 1..Len(own) : times(own[q], own) = times(own[q], other)
            /\ \A q \in 1..Len(r.a) : Ev(r.a[q]).X = ev.X /\ Ev(r.a[q]).o_ = ev.o_
            /\ \A j \in 1..n : LET g(q) == At(O(Ev(r.a[q+1])), j) IN VClose(At(o, j), SumV(g, Len(r.a), 3), t, sc)
    [] r.k = "part" ->       \* the components told, of the answer of the turbine described by the same settings
         LET a == Ev(r.a) oa == O(a) IN
         /\ a.out = "ok" /\ SAt(r.a) = s /\ SameOpts(a, ev) /\ a.X = ev.X /\ a.Y = ev.Y /\ a.Z = ev.Z /\ Len(o) = Len(ev.comps)
         /\ \A q \in 1..Len(o) : Len(o[q]) = n /\ \A j \in 1..n : Close(o[q][j], oa[ev.comps[q]][j], t, sc)
    [] r.k = "equal" -> LET a == Ev(r.a) IN AllClose(o, O(a), t, sc)
    [] r.k = "zero" -> \A q \in 1..Len(o) : \A j \in 1..Len(o[q]) : Le(FAbs(o[q][j]), t ** sc)
    [] OTHER -> FALSE

FarmHolds(ev, r) ==      \* r.a: the queries of the members alone, in membership order
  LET o == O(ev)
      n == Len(Pts(ev))
      m == Members(st, ev.f)
      U == IF ev.U0 = "" THEN VZero ELSE Nums(ev.U0)
  IN /\ Len(r.a) = Len(m)
     /\ \A q \in 1..Len(m) : /\ Ev(r.a[q]).t = m[q] /\ SAt(r.a[q]) = st.wt[m[q]]
                             /\ Ev(r.a[q]).o_ = [ev.o_ EXCEPT !.only_ind = 1]
                             /\ Ev(r.a[q]).X = ev.X /\ Ev(r.a[q]).Y = ev.Y /\ Ev(r.a[q]).Z = ev.Z
                             /\ Ev(r.a[q]).out = "ok"
     /\ ev.out = "ok"
     /\ Len(o) = 3 /\ Len(o[1]) = n
     /\ \A j \in 1..n : LET f(q) == At(O(Ev(r.a[q+1])), j)
                        IN VClose(At(o, j), VAdd(U, SumV(f, Len(m), 3)), Tol(ev), Sc(ev))

MemberSettings(f) == [q \in 1..Len(Members(st, f)) |-> st.wt[Members(st, f)[q]]]
FarmLine(ev) ==       \* ev.m: the queries of the members alone, in order
  LET m == Members(st, ev.f) IN
  /\ Len(ev.m) = Len(m)
  /\ \A q \in 1..Len(m) : LET e == Ev(ev.m[q]) IN e.t = m[q] /\ SAt(ev.m[q]) = st.wt[m[q]] /\ e.out = "ok" /\ e.o_ = ev.o_ /\ e.X = ev.X /\ e.Y = ev.Y /\ e.Z = ev.Z
  /\ LET v(j) == LET f(q) == At(O(Ev(ev.m[q+1])), j) IN SumV(f, Len(m), 3) IN FarmLineOK(MemberSettings(ev.f), ev, v)

RelErr(ev) ==         \* ev.q[m][d]: the query of the turbine of model m at the points of direction d
  LET a == ev.a hor == a.horizontal = "1"
      pts(t, d) == LET P == DirPts(a, d) hh == SHub(st.wt[t])[2] IN [j \in 1..Len(P) |-> IF hor THEN <<P[j][1], hh, P[j][2]>> ELSE <<0, P[j][1] ++ hh, P[j][2]>>]
      qv(m, d) == Nums(Ev(ev.q[m][d]).o[3])
  IN /\ \A m \in 1..Len(ev.models) : ev.models[m] \notin {"AD", "GP"} =>
          \A d \in 1..Len(Nums(a.angles)) : LET e == Ev(ev.q[m][d]) S == pts(e.t, d) P == Pts(e) IN
            /\ e.out = "ok" /\ SAt(ev.q[m][d]) = st.wt[e.t] /\ st.wt[e.t].model = ev.models[m] /\ Len(P) = Len(S)
            /\ e.o_.only_ind = 0 /\ e.o_.longi = 0 /\ e.o_.root = 0 /\ e.o_.tang = 1 /\ e.o_.no_wake = 0 /\ e.o_.ground = "" /\ e.o_.model = ""
            /\ \A j \in 1..Len(S) : VClose(P[j], S[j], Lit("1e-9"), 1 ++ Norm(S[j]))
     /\ RelErrOK(st.disk, ev, qv)

(* ---------------- verdict ---------------- *)
SameKey(a, b) == a.o_ = b.o_ /\ a.X = b.X /\ a.Y = b.Y /\ a.Z = b.Z /\ a.op = b.op
Rels(ev) == IF Has(ev, "rel") THEN {ev.rel[q] : q \in 1..Len(ev.rel)} ELSE {}

Holds(cl, ev) ==
  LET s == IF Has(ev, "t") /\ ev.t \in DOMAIN st.wt THEN st.wt[ev.t] ELSE <<>> IN
  CASE cl = "outcome" -> IF ev.op = "Query" THEN ev.out \in QueryOutcomes(s, ev.o_) ELSE RejectOK(ev)
    [] cl = "ok"      -> ev.out = "ok"
    [] cl = "pure"    -> ev.pre = ev.post
    [] cl = "shape"   -> ev.out = "ok" => \A q \in 1..Len(ev.sho) : ev.sho[q] = ev.shi
    [] cl = "finite"  -> ev.out = "ok" => \A q \in 1..Len(ev.o) : \A j \in 1..Len(O(ev)[q]) : IsFin(O(ev)[q][j])
    [] cl = "memo"    -> \* history independence: same settings, same question, same answer
         \A k \in 1..i : (memo[k] = s /\ Ev(k).op = "Query" /\ SameKey(Ev(k), ev))
                           => /\ ev.out = Ev(k).out
                              /\ (ev.out = "ok" => AllClose(O(ev), O(Ev(k)), Tol(ev), Sc(ev)))
    [] cl = "abs"     -> ev.out = "ok" => AbsVelocity(s, ev)
    [] cl = "angles"  -> ev.out = "ok" /\ AnglesOK(s, ev)
    [] cl = "loading" -> ev.out = "ok" /\ LoadingOK(s, ev)
    [] cl = "windangle" -> ev.out = "ok" /\ WindAngleOK(s, ev)
    [] cl = "skew"    -> SkewOK(s, ev)
    [] cl = "disk"    -> ev.out = "ok" /\ DiskOK(s, ev)
    [] cl = "layout"  -> ev.out = "ok" /\ LayoutOK(ev)
    [] cl = "file"    -> ev.out = "ok" /\ FileOK(ev)
    [] cl = "count"   -> ev.out = "ok" /\ ev.n = Len(Members(st, ev.f))
    [] cl = "rel"     -> ev.out = "ok" /\ \A r \in Rels(ev) : RelHolds(ev, s, r)
    [] cl = "farm"    -> \A r \in Rels(ev) : FarmHolds(ev, r)
    [] cl = "farmout" -> \* a farm query fails iff a member does
         \A r \in Rels(ev) : (ev.out = "ok") = (\A q \in 1..Len(r.a) : Ev(r.a[q]).out = "ok")
    [] cl = "built"   -> ev.out = "ok" /\ ModelBuilt(s, ev.a)
    [] cl = "farmbuilt" -> ev.out = "ok" /\ FarmBuilt(MemberSettings(ev.f), ev.a)
    [] cl = "section" -> ev.out = "ok" /\ SectionOK(s, ev)
    [] cl = "parts"   -> ev.out = "ok" /\ PartAbs(s, ev)
    [] cl = "farmline" -> ev.out = "ok" /\ FarmLine(ev)
    [] cl = "describe" -> ev.out = "ok" /\ DescribeOK(s, ev)
    [] cl = "farmdescribe" -> ev.out = "ok" /\ FarmDescribeOK(MemberSettings(ev.f), ev)
    [] cl = "profile" -> ev.out = "ok" /\ ProfileOK(ev)
    [] cl = "frame"   -> ev.out = "ok" /\ FrameOK(ev)
    [] cl = "plane"   -> LoadPlaneOK(st.disk, ev)
    [] cl = "proj"    -> ProjOK(st.disk, ev)
    [] cl = "sim"     -> SimOK(st.disk, ev)
    [] cl = "stored"  -> StoredSectionOK(ev)
    [] cl = "relerr"  -> RelErr(ev)
    [] cl = "plot"    -> PlotOK(ev)
    [] cl = "stream"  -> ev.out = "ok" /\ StreamOK(ev)
    [] cl = "makemap" -> MakeMapOK(ev)
    [] cl = "speedmap" -> SpeedMapOK(ev)
    [] cl = "levels"  -> LevelsOK(ev)
    [] cl = "refused" -> ev.out # "ok"
    [] cl = "error"   -> ev.out = "ok" /\ ErrorOK(ev)
    [] cl = "hubplane" -> HubPlaneOK(ev)
    [] OTHER          -> KernelHolds(cl, ev, Traces[c])

Failing(ev) == {cl \in {ev.chk[q] : q \in 1..Len(ev.chk)} : ~Holds(cl, ev)}
Report(ev) == LET bad == Failing(ev) IN IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", c, i + 1, bad>>)

Init == c \in 1..NChunks /\ i = 0 /\ st = EmptyState /\ memo = <<>>
Next == /\ i < Len(Traces[c])
        /\ LET ev == Ev(i + 1) IN
             /\ Report(ev)
             /\ st' = IF Has(ev, "out") /\ ev.out = "ok" /\ Accepts(st, ev) THEN Apply(st, ev) ELSE st
             /\ memo' = Append(memo, IF Has(ev, "t") /\ ev.op = "Query" THEN st.wt[ev.t] ELSE <<>>)
             /\ i' = i + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
============================================================================
