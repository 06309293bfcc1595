------------------------------ MODULE Turbine ------------------------------
(* Geometry and velocity field of one turbine as a function of its settings. A settings record s (see Wiz.tla) holds  *)
(* numbers as strings: R, shaft (zero-yaw shaft direction), vert, hub, yaw, wind, chi ("auto" or prescribed), ground, *)
(* model, load.                                                                                                      *)
EXTENDS Kernels, Loading, TLC

SVert(s)   == Nums(s.vert)
SWind(s)   == Nums(s.wind)
SHub(s)    == Nums(s.hub)
Shaft0(s)  == Nums(s.shaft)
Shaft(s)   == Rotate(SVert(s), Lit(s.yaw), Shaft0(s))
YawWind(s) == AngleAbout(SVert(s), Shaft0(s), Horiz(SVert(s), SWind(s)))
YawError(s)== AngleAbout(SVert(s), Horiz(SVert(s), SWind(s)), Shaft(s))
(* skew angle of the wake, from shaft to wind *)
Chi(s)     == IF s.chi = "auto" THEN WrapPi(YawWind(s) -- Lit(s.yaw)) ELSE Lit(s.chi)
SkewEps    == Lit("1e-7")
Skewed(s)  == Lt(SkewEps, FAbs(Chi(s)))
TanChi(s)  == IF Skewed(s) THEN Tan(Chi(s)) ELSE 0

(* cylinder axes *)
Axes(s) == LET z == Shaft(s) y == SVert(s) IN <<Cross(y, z), y, z>>
ToLocal(s, v) == LET a == Axes(s) IN <<Dot(a[1], v), Dot(a[2], v), Dot(a[3], v)>>
ToGlobal(s, v) == LET a == Axes(s) IN VAdd(VScale(v[1], a[1]), VAdd(VScale(v[2], a[2]), VScale(v[3], a[3])))

(* --- vorticity carried by the turbine --- *)
(* load = [kind: "none"|"Ct"|"Gamma"|"fun", r, v, lam, ncyl (0: as given), wind, law] ; wind is the one when loaded   *)
LoadStations(s) == IF s.load.ncyl = 0 THEN Nums(s.load.r) ELSE Stations(Lit(s.R), s.load.ncyl)
LoadValues(s) ==
  LET v == Nums(s.load.v) IN
  IF s.load.ncyl = 0 THEN v ELSE IF s.load.ncyl = 1 THEN <<Mean(v)>>
  ELSE LET x == LoadStations(s) r == Nums(s.load.r) IN [i \in 1..Len(x) |-> Interp(x[i], r, v)]
(* vorticity law handed by the user: gamma = c0 + c1 Ct *)
Vorticity(s, variant) ==
  LET r  == LoadStations(s)
      v  == LoadValues(s)
      U0 == Norm(Nums(s.load.wind))
      L  == Lit(s.load.lam)
      R  == Lit(s.R)
  IN [r |-> r] @@
     CASE s.load.kind = "Ct"    -> StrengthsFromCt(r, v, R, U0, L, variant)
       [] s.load.kind = "Gamma" -> StrengthsFromGamma(r, v, R, U0, L, variant)
       [] s.load.kind = "fun"   -> LET c == Nums(s.load.law)
                                   IN [gt |-> [i \in 1..Len(r) |-> c[1] ++ (c[2] ** v[i])], gl |-> <<>>, gr |-> 0]
NCyl(s) == IF s.load.ncyl = 0 THEN Len(Nums(s.load.r)) ELSE s.load.ncyl

(* --- options of a query: o = [only_ind, longi, tang, root, no_wake : 0/1; ground: "" or "1"/"0"; model: "" or name; rff] --- *)
OGround(s, o) == IF o.ground = "" THEN s.ground ELSE o.ground = "1"
OModel(s, o)  == IF o.model = "" THEN s.model ELSE o.model
(* models supporting the tangential component of a single cylinder *)
Known == {"VC", "VCFF", "VD", "SS"}

(* The contributions of a query: a sequence of [comp, model, g, R] whose sum is the induced velocity *)
Contributions(s, o, w) ==
  LET n  == Len(w.r)
      R1 == Lit(s.R)
      md == OModel(s, o)
      radius(i) == IF n = 1 THEN R1 ELSE w.r[i]
      T == IF o.tang = 1 THEN [i \in 1..n |-> [comp |-> "tang", model |-> md, g |-> w.gt[i], R |-> radius(i)]] ELSE <<>>
      \* circulation of the sheet is conserved: 2 pi radius g = 2 pi r gl
      L == IF o.longi = 1 THEN [i \in 1..Len(w.gl) |-> [comp |-> "longi", model |-> md, g |-> (w.gl[i] ** w.r[i]) // radius(i), R |-> radius(i)]] ELSE <<>>
      Q == IF o.root = 1 THEN <<[comp |-> "root", model |-> md, g |-> w.gr, R |-> R1]>> ELSE <<>>
  IN T \o L \o Q

OneVel(c, m, p, rff) ==
  IF FEq(c.g, 0) THEN VZero
  ELSE CASE c.comp = "root"  -> IF Lt(LineDist(<<m, 0, 1>>, p), Lit("1e-9") ** Norm(p)) \/ FEq(Norm(p), 0) THEN VZero ELSE RootU(c.g, m, p)
         [] c.comp = "longi" -> LongiU(c.g, c.R, m, p)
         [] c.comp = "tang" /\ c.model = "VC"   -> TangU(c.g, c.R, m, p)
         [] c.comp = "tang" /\ c.model = "VCFF" -> IF Lt(rff ** c.R, Norm(p)) THEN DoubletLineU(c.g ** Pi ** Sq(c.R), 0, Inf, p) ELSE TangU(c.g, c.R, 0, p)
         [] c.comp = "tang" /\ c.model = "VD"   -> DoubletLineU(c.g ** Pi ** Sq(c.R), 0, Inf, p)
         [] c.comp = "tang" /\ c.model = "SS"   -> <<0, 0, SelfSimilarUz(c.g, c.R, Lit("0.587"), Lit("1.32"), p)>>

(* induced velocity without ground *)
Alone(s, o, cs, p) ==
  LET loc == ToLocal(s, VSub(p, SHub(s)))
      m   == TanChi(s)
      rff == Lit(o.rff)
      f(i) == OneVel(cs[i+1], m, loc, rff)
  IN ToGlobal(s, SumV(f, Len(cs), 3))
MirrorPt(s, p) == Reflect(SVert(s), p)
Induced(s, o, cs, p) ==
  LET u == Alone(s, o, cs, p)
  IN IF OGround(s, o) THEN VAdd(u, Reflect(SVert(s), Alone(s, o, cs, MirrorPt(s, p)))) ELSE u

(* curl of the induced velocity off the vorticity: that of the starting points of the trailed vortex lines *)
AloneCurl(s, cs, p) ==
  LET loc == ToLocal(s, VSub(p, SHub(s)))
      f(i) == LET c == cs[i+1] IN CASE c.comp = "root"  -> LineEndCurl(c.g, loc)
                                    [] c.comp = "longi" -> LongiEndCurl(c.g, c.R, loc)
                                    [] OTHER -> VZero
  IN ToGlobal(s, SumV(f, Len(cs), 3))
EndCurl(s, o, cs, p) ==     \* curl is a pseudo-vector: the image has the opposite sign
  LET u == AloneCurl(s, cs, p)
  IN IF OGround(s, o) THEN VSub(u, Reflect(SVert(s), AloneCurl(s, cs, MirrorPt(s, p)))) ELSE u

(* self-induction and wake region masked on request *)
InMask(s, p) ==
  LET loc == ToLocal(s, VSub(p, SHub(s)))
      R   == Lit(s.R)
  IN Lt(Sqrt(Sq(loc[1]) ++ Sq(loc[2])), Lit("1.001") ** R) /\ Le(Lit("-0.6") ** R, loc[3])
Velocity(s, o, cs, p) ==
  LET ui == IF o.no_wake = 1 /\ InMask(s, p) THEN VZero ELSE Induced(s, o, cs, p)
  IN IF o.only_ind = 1 THEN ui ELSE VAdd(ui, SWind(s))

(* outcomes a query may have, by case: loaded; n cylinders; skewed; model md; component requested and present (T, L),    *)
(* of non-zero strength (nzT, nzL)                                                                                   *)
OutcomeSet(loaded, n, skewed, md, T, L, nzT, nzL) ==
  IF ~loaded THEN {"error"}
  ELSE LET supT  == IF n > 1 \/ skewed THEN md = "VC" ELSE md \in Known
           supL  == md = "VC"
           bad   == (T /\ nzT /\ ~supT) \/ (L /\ nzL /\ ~supL)
           \* nothing of non-zero strength is requested from the unsupported model: either answer is fine
           maybe == (n > 1 /\ md # "VC") \/ (T /\ ~supT) \/ (L /\ ~supL)
       IN IF bad THEN {"notimpl"} ELSE IF maybe THEN {"ok", "notimpl"} ELSE {"ok"}
QueryOutcomes(s, o) ==
  IF s.load.kind = "none" THEN {"error"}
  ELSE LET w == Vorticity(s, "asfound")
           nz(q) == \E i \in 1..Len(q) : ~FEq(q[i], 0)
       IN OutcomeSet(TRUE, Len(w.r), Skewed(s), OModel(s, o), o.tang = 1, o.longi = 1 /\ w.gl # <<>>, nz(w.gt), nz(w.gl))
=============================================================================
