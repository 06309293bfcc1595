-------------------------------- MODULE Plots --------------------------------
(* What the plots of planes show. A plane has values at the nodes (x[i], y[j]) of its axes: x across the figure, y up.  *)
(* A drawing is a set of cells <centre, value>, or the zones and lines between and at given levels, with the limits of  *)
(* the colour scale.                                                                                                    *)
EXTENDS Stores

IsNum(x) == FEq(x, x)
(* the quantity shown: axial velocity, vorticity, or the norm of the velocity in the plane *)
Shown(a) ==
  LET u == Nums(a.u) v == Nums(a.v) w == Nums(a.o)
  IN IF a.comp = "Axial" THEN u ELSE IF a.comp = "Vorticity" THEN w ELSE [k \in 1..Len(u) |-> Sqrt((u[k] ** u[k]) ++ (v[k] ** v[k]))]
(* nodes: x varies slowest *)
NodeX(a, k) == Nums(a.x)[((k - 1) \div Len(Nums(a.y))) + 1]
NodeY(a, k) == Nums(a.y)[((k - 1) % Len(Nums(a.y))) + 1]
Extreme(S, better(_, _)) ==
  LET RECURSIVE f(_, _)
      f(k, m) == IF k > Len(S) THEN m ELSE f(k + 1, IF ~IsNum(m) \/ (IsNum(S[k]) /\ better(S[k], m)) THEN S[k] ELSE m)
  IN f(2, S[1])
Limits(a) == IF a.lim # "" THEN Nums(a.lim) ELSE <<Extreme(Shown(a), LAMBDA p, q : Lt(p, q)), Extreme(Shown(a), LAMBDA p, q : Lt(q, p))>>
Eps9 == Lit("1e-9")
Near2(p, q) == Close(p[1], q[1], Eps9, 1) /\ Close(p[2], q[2], Eps9, 1)

(* one cell per node, with the value there (nothing where there is no value) *)
MeshOK(a, r) ==
  LET S == Shown(a) n == Len(S) cx == Nums(r.cx) cy == Nums(r.cy) v == Nums(r.val) IN
  /\ Len(cx) = n /\ Len(v) = n
  /\ \A k \in 1..n : \E q \in 1..n : Near2(<<cx[q], cy[q]>>, <<NodeX(a, k), NodeY(a, k)>>) /\ (IF IsNum(S[k]) THEN Close(v[q], S[k], Lit("1e-12"), 1) ELSE ~IsNum(v[q]))

(* where the sides of the grid cells cross a level *)
Crossings(a, lev) ==
  LET S == Shown(a) x == Nums(a.x) y == Nums(a.y) nx == Len(x) ny == Len(y)
      id(i, j) == ((i - 1) * ny) + j
      cut(p, q) == (Lt(S[p], lev) /\ Lt(lev, S[q])) \/ (Lt(S[q], lev) /\ Lt(lev, S[p]))
      t(p, q) == (lev -- S[p]) // (S[q] -- S[p])
      mid(u, w, f) == u ++ (f ** (w -- u))
      sideX == {ij \in (1..nx-1) \X (1..ny) : cut(id(ij[1], ij[2]), id(ij[1] + 1, ij[2]))}
      sideY == {ij \in (1..nx) \X (1..ny-1) : cut(id(ij[1], ij[2]), id(ij[1], ij[2] + 1))}
  IN {<<mid(x[ij[1]], x[ij[1] + 1], t(id(ij[1], ij[2]), id(ij[1] + 1, ij[2]))), y[ij[2]]>> : ij \in sideX}
     \cup {<<x[ij[1]], mid(y[ij[2]], y[ij[2] + 1], t(id(ij[1], ij[2]), id(ij[1], ij[2] + 1)))>> : ij \in sideY}
Verts(p) == LET x == Nums(p.x) y == Nums(p.y) IN {<<x[k], y[k]>> : k \in 1..Len(x)}
In(p, V) == \E q \in V : Near2(p, q)
(* the line of a level passes through exactly these crossings *)
LineOK(a, lev, p) == LET C == Crossings(a, lev) V == Verts(p) IN (\A c \in C : In(c, V)) /\ (\A q \in V : In(q, C))
(* the zone between two levels has its corners at the crossings of both and at the nodes of the border that are in it *)
Border(a) ==
  LET nx == Len(Nums(a.x)) ny == Len(Nums(a.y)) IN {k \in 1..nx*ny : LET i == ((k - 1) \div ny) + 1 j == ((k - 1) % ny) + 1 IN i \in {1, nx} \/ j \in {1, ny}}
ZoneOK(a, lo, hi, p) ==
  LET S == Shown(a) C == Crossings(a, lo) \cup Crossings(a, hi) V == Verts(p)
      bord == {<<NodeX(a, k), NodeY(a, k)>> : k \in {q \in Border(a) : Lt(lo, S[q]) /\ Lt(S[q], hi)}}
  IN (\A c \in C \cup bord : In(c, V)) /\ (\A q \in V : In(q, C \cup bord))

PlotOK(ev) ==
  LET a == ev.a r == ev.r lev == Nums(a.levels) lin == Nums(a.lines) L == Limits(a) IN
  /\ ev.out = "ok"
  /\ r.newfig = a.newfig
  /\ (a.xlabel # "" => r.xlabel = a.xlabel /\ r.ylabel = a.ylabel)
  /\ CASE a.fill = "mesh" -> r.kind = "mesh" /\ MeshOK(a, r) /\ Close(Nums(r.clim)[1], L[1], Eps9, 1) /\ Close(Nums(r.clim)[2], L[2], Eps9, 1)
       [] a.fill = "none" -> r.kind = "none"
       [] a.fill = "zones" ->
            /\ r.kind = "zones" /\ SeqEq(Nums(r.levels), lev) /\ Len(r.zones) = Len(lev) - 1
            /\ Close(Nums(r.clim)[1], L[1], Eps9, 1) /\ Close(Nums(r.clim)[2], L[2], Eps9, 1)
            /\ \A k \in 1..Len(lev)-1 : ZoneOK(a, lev[k], lev[k + 1], r.zones[k])
  /\ Len(r.lines) = Len(lin) /\ \A k \in 1..Len(lin) : LineOK(a, lin[k], r.lines[k])

(* streamlines: everywhere along the velocity (linear between the nodes), one through every starting point *)
Bilinear(x, y, S, p) ==
  LET nx == Len(x) ny == Len(y)
      ix == CHOOSE k \in 1..nx-1 : (k = 1 \/ Le(x[k], p[1])) /\ (k = nx - 1 \/ Lt(p[1], x[k + 1]))
      iy == CHOOSE k \in 1..ny-1 : (k = 1 \/ Le(y[k], p[2])) /\ (k = ny - 1 \/ Lt(p[2], y[k + 1]))
      g(i, j) == S[((i - 1) * ny) + j]
      s == (p[1] -- x[ix]) // (x[ix + 1] -- x[ix])
      t == (p[2] -- y[iy]) // (y[iy + 1] -- y[iy])
  IN ((1 -- s) ** (((1 -- t) ** g(ix, iy)) ++ (t ** g(ix, iy + 1)))) ++ (s ** (((1 -- t) ** g(ix + 1, iy)) ++ (t ** g(ix + 1, iy + 1))))
StreamOK(ev) ==
  LET a == ev.a x == Nums(a.x) y == Nums(a.y) u == Nums(a.u) v == Nums(a.v)
      x0 == Nums(ev.r.x0) y0 == Nums(ev.r.y0) x1 == Nums(ev.r.x1) y1 == Nums(ev.r.y1)
      Lx == x[Len(x)] -- x[1] Ly == y[Len(y)] -- y[1]
      n == a.nstream
      f(k) == (k - 1) // (n - 1)
      ys == IF a.horizontal = "1" THEN [k \in 1..n |-> Lit("0.9") ** (y[1] ++ (f(k) ** Ly))] ELSE Nums("-0.5 0 0.5 1.5")
  IN /\ ev.out = "ok" /\ Len(x0) >= Len(ys)
     /\ \A k \in 1..Len(x0) :
          LET d == <<x1[k] -- x0[k], y1[k] -- y0[k]>> p == <<x0[k] ++ (Half ** d[1]), y0[k] ++ (Half ** d[2])>>
              w == <<Bilinear(x, y, u, p), Bilinear(x, y, v, p)>>
              nd == Sqrt(Sq(d[1]) ++ Sq(d[2])) nw == Sqrt(Sq(w[1]) ++ Sq(w[2]))
          IN Le(FAbs((d[1] ** w[2]) -- (d[2] ** w[1])), Lit("0.01") ** nd ** nw)
     /\ \A q \in 1..Len(ys) : \E k \in 1..Len(x0) : Le(FAbs(x0[k] -- Lit(a.start)), Lit("0.01") ** Lx) /\ Le(FAbs(y0[k] -- ys[q]), Lit("0.01") ** Ly)

(* --- colour scales: 256 colours, linear between the given ones --- *)
(* a position where two colours are given belongs to the last of them *)
Ramp(pos, val, x) ==
  LET n == Len(pos)
      k == CHOOSE q \in 1..n-1 : Le(pos[q], x) /\ Le(x, pos[q + 1]) /\ Lt(pos[q], pos[q + 1])
  IN val[k] ++ (((x -- pos[k]) // (pos[k + 1] -- pos[k])) ** (val[k + 1] -- val[k]))
ColorsOK(pos, seq, has4, ev) ==
  LET r == ev.r n == Len(pos) idx == Nums(r.idx) IN
  /\ \A q \in 1..Len(idx) : LET c == Nums(r.rgba[q]) x == idx[q] // 255 IN
       /\ \A m \in 1..3 : Close(c[m], Ramp(pos, [k \in 1..n |-> seq[k][m]], x), Lit("1e-9"), 1)
       /\ Close(c[4], IF has4 THEN Ramp(pos, [k \in 1..n |-> seq[k][4]], x) ELSE 1, Lit("1e-9"), 1)
MakeMapOK(ev) ==
  LET seq == [k \in 1..Len(ev.a.seq) |-> Nums(ev.a.seq[k])] n == Len(seq)
      pos == IF ev.a.pos = "" THEN [k \in 1..n |-> (k - 1) // (n - 1)] ELSE Nums(ev.a.pos)
  IN ev.out = "ok" /\ ColorsOK(pos, seq, Len(seq[1]) = 4, ev)
(* the scale of speeds: dark blue at the lowest, light blue, green and orange at 0.9, 0.95 and 0.98, white within 0.001 of 1, dark red at the highest *)
SpeedMapOK(ev) ==
  LET lo == Lit(ev.a.lo) hi == Lit(ev.a.hi) al == Lit(ev.a.alpha)
      rgb(x, y, z) == <<x // 255, y // 255, z // 255, al>>
      seq == <<rgb(63, 63, 153), rgb(159, 159, 204), rgb(158, 204, 170), rgb(255, 212, 96), rgb(255, 255, 255), rgb(255, 255, 255), rgb(255, 255, 255), rgb(138, 42, 93)>>
      sp == <<lo, Lit("0.9"), Lit("0.95"), Lit("0.98"), Lit("0.999"), 1, Lit("1.001"), hi>>
  IN /\ ev.out = "ok"
     /\ ColorsOK([k \in 1..8 |-> (sp[k] -- lo) // (hi -- lo)], seq, TRUE, ev)
     /\ LET t == Nums(ev.r.ticks) IN FEq(t[Len(t)], hi) /\ \A k \in 1..Len(t) : \E q \in 1..8 : Close(t[k], sp[q], Lit("0.0050001"), 1)
(* levels shown: the lines of the case and one level on each side *)
LevelsOK(ev) ==
  LET f == Nums(ev.r.filled) l == Nums(ev.r.lines)
      want == IF FEq(Lit(ev.a.CT), Lit("0.95")) THEN Nums("0.5 0.6 0.7 0.8 0.9 0.95 0.98 0.99 1 1.01") ELSE Nums("0.7 0.8 0.85 0.9 0.95 0.98 0.99 0.995 1.01")
  IN /\ ev.out = "ok" /\ SeqEq(l, want) /\ SeqEq(f, <<Lit("0.2")>> \o want \o <<Lit("1.4")>>)
=============================================================================
