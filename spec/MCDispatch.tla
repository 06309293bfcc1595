----------------------------- MODULE MCDispatch -----------------------------
(* All combinations of number of cylinders, skew, model, requested components, kind of loading and vanishing strengths: *)
(* the decision tree of the implementation (translated branch by branch) answers within OutcomeSet of Turbine.tla, and *)
(* when it answers, the components it evaluates, with the kernel it picks for each, are those of the specification.    *)
(* Deviation: a bug of the decision tree, to show that the invariants are not vacuous.                                *)
EXTENDS Turbine, FiniteSets, IOUtils
Bug == IOEnv.MC_BUGS
VARIABLE k
Case == [kind: {"none", "swirl", "noswirl", "fun"}, n: {1, 3}, skewed: BOOLEAN, md: Known \cup {"XX"}, T: BOOLEAN, L: BOOLEAN, Q: BOOLEAN, nzT: BOOLEAN, nzL: BOOLEAN]
Init == k \in Case
Spec == Init /\ [][UNCHANGED k]_k

HasGl(c) == c.kind = "swirl"      \* trailed and root vorticity are only known with swirl
(* --- the implementation --- *)
ImplRoot(c) == IF c.Q /\ HasGl(c) /\ c.nzL THEN {<<"root", IF c.skewed /\ Bug # "straightroot" THEN "skewed" ELSE "straight">>} ELSE {}
ImplT1(c) == IF c.T /\ c.nzT
             THEN IF c.skewed THEN IF c.md = "VC" \/ (Bug = "skewff" /\ c.md = "VCFF") THEN [out |-> "ok", s |-> {<<"tang", "tube skewed">>}] ELSE [out |-> "notimpl", s |-> {}]
                  ELSE CASE c.md = "VC"   -> [out |-> "ok", s |-> {<<"tang", "tube straight">>}]
                         [] c.md = "VCFF" -> [out |-> "ok", s |-> {<<"tang", "cut">>}]
                         [] c.md = "VD"   -> [out |-> "ok", s |-> {<<"tang", "doublets">>}]
                         [] c.md = "SS"   -> [out |-> "ok", s |-> {<<"tang", "selfsim">>}]
                         [] OTHER -> IF Bug = "silent" THEN [out |-> "ok", s |-> {}] ELSE [out |-> "notimpl", s |-> {}]
             ELSE [out |-> "ok", s |-> {}]
ImplL1(c) == IF c.L /\ HasGl(c) /\ c.nzL
             THEN IF c.md = "VC" \/ (Bug = "longiany" /\ c.md = "VCFF") THEN [out |-> "ok", s |-> {<<"longi", IF c.skewed THEN "skewed" ELSE "straight">>}] ELSE [out |-> "notimpl", s |-> {}]
             ELSE [out |-> "ok", s |-> {}]
Impl(c) ==
  IF c.kind = "none" THEN [out |-> "error", s |-> {}]
  ELSE IF c.n = 1
  THEN IF ImplT1(c).out # "ok" THEN ImplT1(c) ELSE IF ImplL1(c).out # "ok" THEN ImplL1(c) ELSE [out |-> "ok", s |-> ImplRoot(c) \cup ImplT1(c).s \cup ImplL1(c).s]
  ELSE IF c.md = "VC"
  THEN [out |-> "ok", s |-> ImplRoot(c)
                            \cup (IF c.T /\ c.nzT THEN {<<"tang", IF c.skewed THEN "tube skewed" ELSE "tube straight">>} ELSE {})
                            \cup (IF c.L /\ HasGl(c) /\ c.nzL /\ ~(Bug = "multilongi" /\ c.skewed) THEN {<<"longi", IF c.skewed THEN "skewed" ELSE "straight">>} ELSE {})]
  ELSE [out |-> "notimpl", s |-> {}]
(* --- the specification --- *)
SpecSet(c) == {x \in {"tang", "longi", "root"} : CASE x = "tang" -> c.T /\ c.nzT [] x = "longi" -> c.L /\ HasGl(c) /\ c.nzL [] x = "root" -> c.Q /\ HasGl(c) /\ c.nzL}
SpecKernel(c, x) ==
  CASE x # "tang" -> IF c.skewed THEN "skewed" ELSE "straight"
    [] c.md = "VC"   -> IF c.skewed THEN "tube skewed" ELSE "tube straight"
    [] c.md = "VCFF" -> "cut" [] c.md = "VD" -> "doublets" [] c.md = "SS" -> "selfsim"
Outcomes(c) == OutcomeSet(c.kind # "none", c.n, c.skewed, c.md, c.T, c.L /\ HasGl(c), c.nzT, c.nzL)
OutcomeOK == Impl(k).out \in Outcomes(k)
SameParts == Impl(k).out = "ok" => Impl(k).s = {<<x, SpecKernel(k, x)>> : x \in SpecSet(k)}
(* nothing is silently left out: what is not evaluated is refused or has no strength *)
Loud == (Impl(k).out = "ok" /\ k.T /\ k.nzT) => \E y \in Impl(k).s : y[1] = "tang"
=============================================================================
