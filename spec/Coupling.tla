------------------------------- MODULE Coupling -------------------------------
(* The horizontal plane at hub height of a coupled simulation. A simulation (of another program, replaced by a stand-in  *)
(* that knows a few input files) has turbines, a domain, and a flow that depends on the options its wake was computed    *)
(* with and on the options its flow is asked with:                                                                       *)
(*   u = U (1 - g/10) + r x/100 + y/50 + 3z/100 ,  v = h/20 - x/100 + y z/25                                             *)
(* g: strength factor of the wake, r and h: radius and strength factors of the flow asked. A plane is cut at the level   *)
(* of the grid nearest to a height.                                                                                      *)
EXTENDS Plots

Node(lo, hi, n, k) == IF n = 1 THEN lo ELSE lo ++ (((k - 1) ** (hi -- lo)) // (n - 1))
(* the level nearest to the height of the first turbine (the drivers leave no ties) *)
CutLevel(a) ==
  LET b == Nums(a.bounds) h == Nums(a.heights)[1]
      z(k) == Node(b[5], b[6], a.nz, k)
      k0 == CHOOSE k \in 1..a.nz : \A q \in 1..a.nz : Le(FAbs(z(k) -- h), FAbs(z(q) -- h))
  IN z(k0)
CutU(a, x, y, z) == (Lit(a.U) ** (1 -- (Lit(a.gamma) // 10))) ++ (((Lit(a.radius) ** x) // 100) ++ ((y // 50) ++ ((3 ** z) // 100)))
CutV(a, x, y, z) == ((Lit(a.gamma) // 20) -- (x // 100)) ++ ((y ** z) // 25)

(* a: file's speed U, heights of its turbines, domain asked (or its own), nodes nx, ny, nz, factors gamma and radius of *)
(* the options; r: what is handed out                                                                                   *)
HubPlaneOK(ev) ==
  LET a == ev.a r == ev.r IN
  IF a.known = "0" THEN ev.out # "ok"
  ELSE LET b == Nums(a.bounds) z == CutLevel(a)
           X == Nums(r.x) Y == Nums(r.y) u == Nums(r.u) v == Nums(r.v)
       IN /\ ev.out = "ok"
          /\ Len(X) = a.nx /\ Len(Y) = a.ny /\ r.shape = <<a.ny, a.nx, a.ny, a.nx>>
          /\ \A k \in 1..a.nx : Close(X[k], Node(b[1], b[2], a.nx, k), Lit("1e-9"), 1 ++ FAbs(X[k]))
          /\ \A k \in 1..a.ny : Close(Y[k], Node(b[3], b[4], a.ny, k), Lit("1e-9"), 1 ++ FAbs(Y[k]))
          /\ \A j \in 1..a.ny : \A k \in 1..a.nx :
               LET q == ((j - 1) * a.nx) + k IN
               /\ Close(u[q], CutU(a, X[k], Y[j], z), Lit("1e-9"), 1 ++ FAbs(u[q]))
               /\ Close(v[q], CutV(a, X[k], Y[j], z), Lit("1e-9"), 1 ++ FAbs(v[q]))
          /\ r.file = a.file            \* the simulation handed out along is the one of the file
=============================================================================
