------------------------------- MODULE Events -------------------------------
(* Reading recorded events: results are strings of numbers *)
EXTENDS Vec, TLC
Has(ev, f) == f \in DOMAIN ev
NumsClose(a, b, tol, sc) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Close(a[j], b[j], tol, sc)
AllClose(oa, ob, tol, sc) == Len(oa) = Len(ob) /\ \A q \in 1..Len(oa) : NumsClose(oa[q], ob[q], tol, sc)
O(ev) == [q \in 1..Len(ev.o) |-> Nums(ev.o[q])]
At(o, j) == <<o[1][j], o[2][j], o[3][j]>>
Pts(ev) == LET x == Nums(ev.X) y == Nums(ev.Y) z == Nums(ev.Z) IN [j \in 1..Len(x) |-> <<x[j], y[j], z[j]>>]
Tol(ev) == Lit(ev.tol)
Sc(ev)  == Lit(ev.sc)
Same(a, b) == a = b
=============================================================================
