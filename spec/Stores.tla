------------------------------- MODULE Stores -------------------------------
(* Stored simulations of the articles: which file holds the case asked for, which cases are not available, and what of  *)
(* the file is handed out. The data directory is part of the state: disk maps a path (relative to it) to its content.   *)
EXTENDS Scripts, Integers

(* --- names: numbers of fixed width --- *)
Pad(n, w) ==      \* at least w characters, zeros in front; the sign counts
  LET m == IF n < 0 THEN 0 - n ELSE n
      d == ToString(m)
      RECURSIVE z(_)
      z(k) == IF k <= 0 THEN "" ELSE "0" \o z(k - 1)
  IN IF n < 0 THEN "-" \o z(w - 1 - Len(d)) \o d ELSE z(w - Len(d)) \o d
Cents(n) == ToString(n \div 100) \o "." \o Pad(n % 100, 2)       \* two decimals
(* the integers told with a case are those of its numbers *)
IsPart(x, n, k) == Close(Lit(x) ** k, n, Lit("1e-9"), 1 ++ FAbs(n))

(* --- planes of actuator-disk simulations: loadPlane(CT, HH, Lambda, Horizontal, Yaw) --- *)
FreeAir(a)  == Gt(Lit(a.HH), 9)                                   \* no ground: stored as height 9.9
NoSwirl(a)  == Gt(Lit(a.Lambda), 20)                              \* constant thrust: stored as tip-speed ratio 99
CaseHH(a)   == IF FreeAir(a) THEN 99 ELSE a.hh
CaseLam(a)  == IF NoSwirl(a) THEN 99 ELSE a.lam
CaseOK(a)   == IsPart(a.CT, a.ct, 100) /\ (FreeAir(a) \/ IsPart(a.HH, a.hh, 10)) /\ (NoSwirl(a) \/ IsPart(a.Lambda, a.lam, 1))
CaseName(a) == "CT0" \o ToString(a.ct) \o "_HH" \o Pad(CaseHH(a), 2) \o "_Lambda" \o Pad(CaseLam(a), 2) \o "_Yaw" \o Pad(0 - a.yaw, 2)
Available(a) == IF FreeAir(a) THEN a.horizontal = "1" /\ (a.yaw = 0 \/ NoSwirl(a))
                ELSE a.yaw = 0 /\ (NoSwirl(a) \/ a.lam = 6)
Side(a) == IF a.horizontal = "1" THEN "_Horizontal" ELSE "_Vertical"
GroundFile(a, c) == "Ground/" \o CaseName(a) \o Side(a) \o "_" \o c \o ".csv"
AxisFile(a, c) ==
  IF c = "Z" THEN IF a.horizontal = "1" THEN "Ground/Horizontal_Z.csv" ELSE "Ground/Vertical_Z.csv"
  ELSE IF a.horizontal = "1" THEN "Ground/Horizontal_X.csv"
  ELSE IF a.hh = 20 THEN "Ground/Vertical_Y_HH20.csv" ELSE "Ground/Vertical_Y_HH15.csv"
PlaneFiles(a) == IF FreeAir(a) THEN {"AD_" \o CaseName(a) \o ".mat"} ELSE {AxisFile(a, "X"), AxisFile(a, "Z")} \cup {GroundFile(a, c) : c \in {"U", "V", "W", "Om"}}
(* the content of the case: lateral (or vertical) axis x, axis z along the wind, fields row by row in z *)
PlaneOf(disk, a) ==
  IF FreeAir(a) THEN disk["AD_" \o CaseName(a) \o ".mat"]
  ELSE [x |-> disk[AxisFile(a, "X")].v, z |-> disk[AxisFile(a, "Z")].v,
        U |-> disk[GroundFile(a, "U")].v, V |-> disk[GroundFile(a, "V")].v, W |-> disk[GroundFile(a, "W")].v, O |-> disk[GroundFile(a, "Om")].v]
Stored(disk, a) == PlaneFiles(a) \subseteq DOMAIN disk
SameNums(p, q) == LET x == Nums(p) y == Nums(q) IN Len(x) = Len(y) /\ \A k \in 1..Len(x) : FEq(x[k], y[k])
AllZero(p, n) == LET x == Nums(p) IN Len(x) = n /\ \A k \in 1..n : FEq(x[k], 0)
MeshX(x, z) == [k \in 1..Len(x)*Len(z) |-> x[((k-1) % Len(x)) + 1]]
MeshZ(x, z) == [k \in 1..Len(x)*Len(z) |-> z[((k-1) \div Len(x)) + 1]]
DistinctNums(p) == LET x == Nums(p) IN \A k \in 1..Len(x) : \A m \in 1..k-1 : ~FEq(x[k], x[m])
SeqEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : FEq(s[k], t[k])
(* the plane handed out (r: its axes, grids and fields) *)
LoadPlaneOK(disk, ev) ==
  LET a == ev.a r == ev.r IN
  /\ CaseOK(a)
  /\ IF ~Available(a) THEN ev.out = "ok" /\ r.none = "1"
     ELSE IF ~Stored(disk, a) THEN ev.out # "ok"
     ELSE IF FreeAir(a) /\ ~(DistinctNums(PlaneOf(disk, a).x) /\ DistinctNums(PlaneOf(disk, a).z)) THEN ev.out # "ok"     \* not a grid
     ELSE LET d == PlaneOf(disk, a) x == Nums(d.x) z == Nums(d.z) n == Len(x) * Len(z) hor == a.horizontal = "1" IN
          /\ ev.out = "ok" /\ r.none = "0"
          /\ SameNums(IF hor THEN r.x ELSE r.y, d.x) /\ SameNums(r.z, d.z) /\ FEq(Lit(IF hor THEN r.y ELSE r.x), 0)
          /\ r.shape = <<Len(z), Len(x)>>
          /\ SeqEq(Nums(IF hor THEN r.X ELSE r.Y), MeshX(x, z)) /\ SeqEq(Nums(r.Z), MeshZ(x, z)) /\ AllZero(IF hor THEN r.Y ELSE r.X, n)
          /\ SameNums(r.U, d.U) /\ SameNums(r.V, d.V) /\ SameNums(r.W, d.W)
          /\ IF FreeAir(a) THEN AllZero(r.O, n) ELSE SameNums(r.O, d.O)
          /\ FEq(Lit(r.CT), Lit(a.CT)) /\ r.horizontal = a.horizontal /\ r.vertical = (IF hor THEN "0" ELSE "1") /\ FEq(Lit(r.Yaw), a.yaw)
          /\ FEq(Lit(r.Lambda), IF NoSwirl(a) THEN 99 ELSE Lit(a.Lambda)) /\ FEq(Lit(r.HH), IF FreeAir(a) THEN Lit("9.9") ELSE Lit(a.HH))
(* the sections of a stored plane are the plane itself, in the orientation it was stored in; in free air a horizontal     *)
(* plane also is a vertical one                                                                                          *)
StoredSectionOK(ev) ==
  LET hor == ev.a.horizontal = "1" same == hor <=> (ev.f = "fHorz") IN
  IF ~same /\ ~FreeAir(ev.a) THEN ev.out # "ok"
  ELSE /\ ev.out = "ok" /\ Len(ev.o) = 4
       /\ SameNums(ev.o[1], ev.a.X) /\ SameNums(ev.o[2], ev.a.Z) /\ SameNums(ev.o[3], IF hor THEN ev.a.U ELSE ev.a.V) /\ SameNums(ev.o[4], ev.a.W)

(* --- planes cut from the volumes of the projection method: OutputProj(CT, HH, suffix, Horizontal) --- *)
ProjName(a) == "ProjCorr/Layout1x1_CT0" \o Pad(a.ct, 2) \o a.suffix \o ".npz"
ProjSlice(disk, a) ==      \* axis across the plane, axis along the wind, axial velocity row by row in the latter
  LET d == disk[ProjName(a)]
      x == Nums(d.x) y == Nums(d.y) z == Nums(d.z) u == Nums(d.u)
      HH == Lit(a.HH) hor == a.horizontal = "1"
      zr == [k \in 1..Len(z) |-> z[k] -- HH]           \* heights are measured from the hub
      kz == NearestIdx(zr, 0) ky == NearestIdx(y, 0)
      ny == Len(y) nz == Len(z)
      side == IF hor THEN y ELSE zr
      ns == Len(side)
      U3(q, j, k) == u[((((q-1) * ny) + (j-1)) * nz) + k]
  IN [side |-> side, z |-> x,
      W |-> [p \in 1..Len(x)*ns |-> LET q == ((p-1) \div ns) + 1 m == ((p-1) % ns) + 1 IN IF hor THEN U3(q, m, kz) ELSE U3(q, ky, m)]]
ProjOK(disk, ev) ==
  LET a == ev.a r == ev.r hor == a.horizontal = "1" IN
  /\ IsPart(a.CT, a.ct, 100)
  /\ IF ProjName(a) \notin DOMAIN disk THEN ev.out # "ok"
     ELSE LET sl == ProjSlice(disk, a) side == sl.side x == sl.z nx == Len(x)
          IN /\ ev.out = "ok"
             /\ r.shape = <<nx, Len(side)>>
             /\ SeqEq(Nums(r.W), sl.W) /\ SeqEq(Nums(r.Z), MeshZ(side, x)) /\ SeqEq(Nums(IF hor THEN r.X ELSE r.Y), MeshX(side, x))
             /\ LET p == Nums(IF hor THEN r.x ELSE r.y) w == Nums(r.z) IN
                  /\ Len(p) = Len(side) /\ \A k \in 1..Len(side) : Close(p[k], side[k], Lit("1e-9"), 1 ++ FAbs(side[k]))
                  /\ Len(w) = nx /\ \A k \in 1..nx : Close(w[k], x[k], Lit("1e-9"), 1 ++ FAbs(x[k]))
             /\ FEq(Lit(r.CT), Lit(a.CT)) /\ r.horizontal = a.horizontal /\ r.vertical = (IF hor THEN "0" ELSE "1") /\ FEq(Lit(r.HH), Lit(a.HH))

(* --- lines through farms: the simulation of that spacing, layout, thrust and height --- *)
SimName(a) == "d" \o (IF a.layout = "1x1" THEN "0" ELSE ToString(a.S)) \o "_" \o a.layout \o "_ct" \o Cents(a.ct) \o "_hh" \o Cents(a.hh)
SimKey(a) == "sim " \o SimName(a)
SimOK(disk, ev) ==
  LET a == ev.a IN
  /\ IsPart(a.CT, a.ct, 100) /\ IsPart(a.HH, a.hh, 100)
  /\ IF (a.whole = "0" /\ a.layout # "1x1") \/ SimKey(a) \notin DOMAIN disk THEN ev.out # "ok"
     ELSE LET d == disk[SimKey(a)] o == ev.o x == IF ev.f = "getSimTop" THEN d.xt ELSE d.xm u == IF ev.f = "getSimTop" THEN d.ut ELSE d.um IN
          /\ ev.out = "ok"
          /\ CASE ev.f \in {"getSim", "getSimTop"} -> ev.id = d.id /\ SameNums(o[1], x) /\ SameNums(o[2], u)
               [] ev.f = "get25" -> Close(Nums(o[1])[1], Interp(Lit("-2.5"), Nums(d.xm), Nums(d.um)), Lit("1e-12"), 1)
               [] ev.f = "getSimCTs" -> \* the rows of turbines, in diameters between them; thrusts turbine by turbine
                    /\ SameNums(o[2], d.cts) /\ ev.sho[2] = <<d.ny, d.nx>>
                    /\ LET g == Nums(o[1]) p == Nums(d.rows) IN
                       IF a.layout = "1x1" THEN Len(g) = 1 /\ FEq(g[1], 0) ELSE Len(g) = Len(p) /\ \A k \in 1..Len(p) : Close(g[k], p[k] // a.S, Lit("1e-12"), 1 ++ FAbs(g[k]))

(* --- errors of models relative to a stored plane, along several directions: points at nodes of the plane --- *)
(* qv(m, d)[j]: axial velocity of the turbine of model m at point j of direction d                                       *)
DirPts(a, d) ==      \* rows: <lateral, z>
  LET rho == Nums(a.rho) th == Nums(a.angles)[d] off == Nums(a.off)[d] IN
  [j \in 1..Len(rho) |-> IF a.userho = "1" THEN <<Neg(rho[j] ** Sin(th)), rho[j] ** Cos(th)>> ELSE <<off, rho[j]>>]
NodeVal(xs, zs, w, p) == LET ix == NearestIdx(xs, p[1]) iz == NearestIdx(zs, p[2]) IN
  IF Close(xs[ix], p[1], Lit("1e-9"), 1) /\ Close(zs[iz], p[2], Lit("1e-9"), 1) THEN w[((iz - 1) * Len(xs)) + ix] ELSE Lit("nan")
RelErrOK(disk, ev, qv(_, _)) ==
  LET a == ev.a
      d == PlaneOf(disk, a) x == Nums(d.x) z == Nums(d.z) w == Nums(d.W)
      nd == Len(Nums(a.angles)) nr == Len(Nums(a.rho))
      ad(dir) == LET P == DirPts(a, dir) IN [j \in 1..nr |-> NodeVal(x, z, w, P[j])]
      gp(dir) == LET sl == ProjSlice(disk, ev.gp) P == DirPts(a, dir) IN [j \in 1..nr |-> NodeVal(sl.side, sl.z, sl.W, P[j])]
      val(m, dir) == IF ev.models[m] = "AD" THEN ad(dir) ELSE IF ev.models[m] = "GP" THEN gp(dir) ELSE qv(m, dir)
      err(m, dir, j) == ((val(m, dir)[j] -- ad(dir)[j]) // ad(dir)[j]) ** 100
  IN /\ CaseOK(a) /\ Available(a) /\ Stored(disk, a) /\ ev.out = "ok"
     /\ Len(ev.e) = Len(ev.models) /\ Len(ev.mean) = Len(ev.models)
     /\ \A m \in 1..Len(ev.models) :
          LET e == Nums(ev.e[m]) av == Nums(ev.mean[m]) IN
          /\ Len(e) = nd * nr /\ Len(av) = nr
          /\ \A dir \in 1..nd : LET v == [j \in 1..nr |-> err(m, dir, j)] IN \A j \in 1..nr : Close(e[((dir - 1) * nr) + j], v[j], Tol(ev), Sc(ev))
          /\ \A j \in 1..nr : LET f(q) == e[(q * nr) + j] IN Close(av[j] ** nd, Sum(f, nd), Lit("1e-12"), 1 ++ FAbs(av[j] ** nd))
=============================================================================
