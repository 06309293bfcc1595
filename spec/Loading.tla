------------------------------ MODULE Loading ------------------------------
(* From a rotor loading (local thrust coefficient or bound circulation at radial stations) to the strengths of the    *)
(* vortex cylinders: momentum balance of superposed vortex cylinders (Branlard & Gaunaa).                             *)
(*                                                                                                                   *)
(*   k_i   = Gamma_i Omega/(pi U0^2)                         circulation coefficient at station i, r_1 < ... < r_n   *)
(*   k_i (1 + k_i/(4 lambda_{r,i}^2)) = Ct_i                 thrust-circulation relation                             *)
(*   R_i   = radius of the cylinder shed between stations i and i+1; lambda_i = Omega R_i/U0                         *)
(*   B_i   = far-wake axial velocity / U0 inside cylinder i = 1 + sum_{j>=i} gamma_j/U0                              *)
(*   B_i^2 = B_{i+1}^2 - (k_i - k_{i+1})(1 + a'_i),   a'_i = (k_i + k_{i+1})/(4 lambda_i^2)                          *)
(* which sums to 1 - B_i^2 = Cteff_i, the thrust coefficient minus the pressure drop of the wake rotation             *)
(*   Cteff_i = k_i(1 + k_i/(4 lambda_i^2)) - sum_{j>=i} (k_{j+1}/2)^2 (1/lambda_j^2 - 1/lambda_{j+1}^2)              *)
(* (lemma Abel below), and above the threshold of the high-thrust correction B_i = 1 - 2a, a = (Cteff_i-4ac^2)/(4(1-2ac)). *)
EXTENDS Vec

ac  == Lit("0.34")
CtC == 4 ** ac ** (1 -- ac)
SumSeq(f(_), lo, hi) == LET g(k) == f(lo + k) IN IF hi < lo THEN 0 ELSE Sum(g, hi - lo + 1)

KfromCt(Ct, lamr, swirl) ==
  IF ~swirl THEN Ct ELSE IF Le(Ct, 0) THEN 0 ELSE 2 ** Sq(lamr) ** (Sqrt(1 ++ (Ct // Sq(lamr))) -- 1)

(* radii of the cylinders enclosing the stations r *)
CylRadii(r, R) ==
  LET n == Len(r) IN
  IF n = 1 THEN <<R>>
  ELSE [i \in 1..n |-> IF i < n THEN (r[i] ++ r[i+1]) // 2 ELSE r[n] ++ ((r[n] -- r[n-1]) // 2)]

(* a' convected at cylinder i *)
Ap(k, lam, i) == LET n == Len(k) IN (IF i < n THEN k[i] ++ k[i+1] ELSE k[n]) // (4 ** Sq(lam[i]))
RotLoc(k, lam, j) == LET n == Len(k) IN IF j = n THEN 0 ELSE Sq(k[j+1] // 2) ** ((1 // Sq(lam[j])) -- (1 // Sq(lam[j+1])))
(* variant "exact": the balance above. Variant "asfound": the implementation leaves out the innermost term (j=i) of   *)
(* the rotation sum; see DESIGN.md and known_findings.txt                                                             *)
CtRot(k, lam, i, variant) == LET f(j) == RotLoc(k, lam, j) IN SumSeq(f, IF variant = "exact" THEN i ELSE i + 1, Len(k))
CtEff(k, lam, i, swirl, variant) ==
  IF swirl THEN (k[i] ** (1 ++ (k[i] // (4 ** Sq(lam[i]))))) -- CtRot(k, lam, i, variant) ELSE k[i]
(* 1 - B_i^2 accumulated cylinder by cylinder from the tip (no high-thrust correction) *)
Drop(k, lam, i) ==
  LET n == Len(k)
      f(j) == (IF j < n THEN k[j] -- k[j+1] ELSE k[n]) ** (1 ++ Ap(k, lam, j))
  IN SumSeq(f, i, n)
B(k, lam, i, swirl, tanind, hithrust, variant) ==
  IF i > Len(k) THEN 1
  ELSE LET ce == CtEff(k, lam, i, swirl, variant)
           zero(l) == [j \in 1..Len(l) |-> Lit("inf")]
       IN IF hithrust /\ Gt(ce, CtC) THEN 1 -- (2 ** ((ce -- (4 ** Sq(ac))) // (4 ** (1 -- (2 ** ac)))))
          ELSE IF swirl THEN Sqrt(1 -- ce)
          ELSE Sqrt(1 -- Drop(k, IF tanind THEN lam ELSE zero(lam), i))
(* lemma: with swirl the accumulated balance and the closed form agree *)
Abel(k, lam) == \A i \in 1..Len(k) : Close(Drop(k, lam, i), CtEff(k, lam, i, TRUE, "exact"), Lit("1e-12"), 1 ++ FAbs(Drop(k, lam, i)))

(* strengths of all cylinders: [gt, gl (per unit length of the circle of radius r_i), gr, a] *)
Strengths(r, Gam, rcyl, U0, Omega, swirl, tanind, hithrust, variant) ==
  LET n   == Len(r)
      k   == [i \in 1..n |-> (Gam[i] ** Omega) // (Pi ** Sq(U0))]
      lam == [i \in 1..n |-> (Omega ** rcyl[i]) // U0]
      b   == [i \in 1..n+1 |-> B(k, lam, i, swirl, tanind, hithrust, variant)]
      dG(i) == IF i < n THEN Gam[i] -- Gam[i+1] ELSE Gam[n]
  IN [gt |-> [i \in 1..n |-> U0 ** (b[i] -- b[i+1])],
      a  |-> [i \in 1..n |-> (1 -- b[i]) // 2],
      h  |-> [i \in 1..n |-> (Pi ** U0 ** (b[i] ++ b[i+1])) // (Omega ** (1 ++ (IF tanind THEN Ap(k, lam, i) ELSE 0)))],   \* pitch of the helical filaments
      ap |-> [i \in 1..n |-> IF swirl THEN Gam[i] // (4 ** Pi ** Omega ** Sq(r[i])) ELSE 0],
      swirl |-> swirl,
      gl |-> IF swirl THEN [i \in 1..n |-> dG(i) // (2 ** Pi ** r[i])] ELSE <<>>,
      gr |-> IF swirl THEN Neg(Gam[1]) ELSE 0]

(* tip-speed ratios above 20 are treated without swirl; an infinite one as 10000 *)
LambdaEff(L) == IF IsInf(L) THEN 10000 ELSE L
StrengthsFromGamma(r, Gam, R, U0, Lambda, variant) ==
  LET L == LambdaEff(Lambda) IN Strengths(r, Gam, CylRadii(r, R), U0, (L ** U0) // R, Lt(L, 20), TRUE, TRUE, variant)
GammaFromCt(r, Ct, R, U0, Lambda) ==
  LET L  == LambdaEff(Lambda)
      Om == (L ** U0) // R
  IN [i \in 1..Len(r) |-> (KfromCt(Ct[i], (L ** r[i]) // R, Lt(L, 20)) ** Pi ** Sq(U0)) // Om]
StrengthsFromCt(r, Ct, R, U0, Lambda, variant) == StrengthsFromGamma(r, GammaFromCt(r, Ct, R, U0, Lambda), R, U0, Lambda, variant)

Mean(v) == LET f(k) == v[k+1] IN Sum(f, Len(v)) // Len(v)
(* piecewise-linear interpolation of (xs,ys) at x, constant outside *)
Interp(x, xs, ys) ==
  LET n == Len(xs) IN
  IF Le(x, xs[1]) THEN ys[1] ELSE IF Le(xs[n], x) THEN ys[n]
  ELSE LET i == CHOOSE j \in 1..n-1 : Le(xs[j], x) /\ Lt(x, xs[j+1])
       IN ys[i] ++ (((x -- xs[i]) // (xs[i+1] -- xs[i])) ** (ys[i+1] -- ys[i]))
(* stations used for nCyl cylinders *)
Stations(R, n) == IF n = 1 THEN <<Lit("0.995") ** R>>
                  ELSE [i \in 1..n |-> R ** (Lit("0.005") ++ ((Lit("0.99") ** (i-1)) // (n-1)))]
============================================================================
