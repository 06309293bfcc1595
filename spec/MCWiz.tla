------------------------------- MODULE MCWiz -------------------------------
(* Exhaustive model: a machine shaped like the implementation - fields derived from other fields, caches, arrays that *)
(* are either copied or shared with the caller - runs along the abstract machine of Wiz.tla. In every reachable state *)
(* whatever a query could return must be the same function of the abstract settings (invariant Same): queries depend  *)
(* on the settings only, not on the history (C01), change nothing (C02), and nothing is shared with the caller or     *)
(* between turbines (C03); refused requests change nothing, layouts are those of the members (C08, C09).              *)
(* Bugs is a set of deviations of the implementation-shaped machine; with any of them the invariant must fail          *)
(* (the harness checks that it does: the invariant is not vacuous).                                                   *)
EXTENDS Wiz, FiniteSets, IOUtils, SequencesExt
Fam  == IOEnv.MC_FAMILY
Bugs == IF IOEnv.MC_BUGS = "none" THEN {} ELSE {IOEnv.MC_BUGS}

VARIABLES st,    \* abstract state
          im,    \* implementation: turbine -> fields; a field that is an array is [ref |-> cell] or [val |-> v]
          cell,  \* arrays of the caller: name -> content
          farm,  \* implementation: list of turbine ids
          got    \* what the caller holds from the last layout: "none", or "view" / "copy"
vars == <<st, im, cell, farm, got>>

Turbs == CASE Fam = "one" -> {0} [] Fam = "alias" -> {0, 1} [] Fam = "farm" -> {0, 1, 2}
Cells == CASE Fam = "one" -> {} [] Fam = "alias" -> {"h", "w", "f", "l"} [] Fam = "farm" -> {"h"}
Val(x) == IF "ref" \in DOMAIN x THEN cell[x.ref] ELSE x.val
Own(v) == [val |-> v]
(* the array held under cell c is stored by copy, or by reference if that is the deviation *)
Keep(c, bug) == IF bug \in Bugs THEN [ref |-> c] ELSE Own(cell[c])

New0(h) == [op |-> "New", R |-> "R", shaft |-> "f0", vert |-> "v", hub |-> h, wind |-> "w0", ground |-> FALSE, model |-> "VC", lam |-> "inf"]
Im0(h)  == [frame |-> Own("f0"), yaw |-> "0", T |-> <<"rot", "0", "f0">>, hub |-> Own(h), wind |-> Own("w0"), chi |-> <<>>, presc |-> FALSE,
            gt |-> <<>>, gl |-> <<>>, lam |-> "inf", ground |-> FALSE, model |-> "VC"]

(* ---- what a query returns, as a term ---- *)
SkewTerm(wind, yaw, frame) == <<"skew", wind, yaw, frame>>
(* abstract: from the settings *)
ObsA(s) == [axes |-> <<"rot", s.yaw, s.shaft>>, hub |-> s.hub, wind |-> s.wind,
            skew |-> IF s.chi = "auto" THEN SkewTerm(s.wind, s.yaw, s.shaft) ELSE <<s.chi>>,
            gt   |-> IF s.load.kind = "none" THEN <<>> ELSE <<s.load.kind, s.load.v, s.load.wind, s.load.lam>>,
            gl   |-> IF s.load.kind \in {"none", "fun"} THEN <<>> ELSE <<"gl", s.load.v, s.load.wind, s.load.lam>>,
            ground |-> s.ground, model |-> s.model]
(* implementation: from its fields; the skew is computed in the query unless prescribed (or kept from before) *)
SkewI(x) == IF x.presc \/ ("chicache" \in Bugs /\ x.chi # <<>>) THEN x.chi ELSE SkewTerm(Val(x.wind), x.yaw, Val(x.frame))
ObsI(x) == [axes |-> x.T, hub |-> Val(x.hub), wind |-> Val(x.wind), skew |-> SkewI(x),
            gt |-> IF x.gt # <<>> /\ "ref" \in DOMAIN x.gt[2] THEN [x.gt EXCEPT ![2] = Val(x.gt[2])] ELSE IF x.gt = <<>> THEN <<>> ELSE [x.gt EXCEPT ![2] = x.gt[2].val],
            gl |-> x.gl, ground |-> x.ground, model |-> x.model]

(* ---- actions: abstract record, implementation step ---- *)
Abs(a) == st' = Step(st, a)
Set(t, f) == im' = [im EXCEPT ![t] = f]
Rest(v) == UNCHANGED v
DoYaw(t, y) == /\ Abs([op |-> "Yaw", t |-> t, v |-> y])
               /\ Set(t, [im[t] EXCEPT !.yaw = y, !.T = IF "incyaw" \in Bugs THEN <<"rot", y \o @[2], Val(im[t].frame)>> ELSE <<"rot", y, Val(im[t].frame)>>])
               /\ Rest(<<cell, farm, got>>)
Field(x, val, c, bug) == IF c = "" THEN Own(val) ELSE Keep(c, bug)
DoPos(t, v, c) == /\ Abs([op |-> "Pos", t |-> t, v |-> IF c = "" THEN v ELSE cell[c]]) /\ Set(t, [im[t] EXCEPT !.hub = Field(t, v, c, "refhub")]) /\ Rest(<<cell, farm, got>>)
DoWind(t, v, c) == /\ Abs([op |-> "Wind", t |-> t, v |-> IF c = "" THEN v ELSE cell[c]]) /\ Set(t, [im[t] EXCEPT !.wind = Field(t, v, c, "refwind")]) /\ Rest(<<cell, farm, got>>)
DoFrame(t, v, c) ==
  LET w == IF c = "" THEN v ELSE cell[c]
      y == IF "frameyaw" \in Bugs THEN im[t].yaw ELSE "0" IN
  /\ Abs([op |-> "Frame", t |-> t, shaft |-> w, vert |-> "v"])
  /\ Set(t, [im[t] EXCEPT !.frame = Field(t, v, c, "refframe"), !.yaw = y, !.T = <<"rot", y, w>>]) /\ Rest(<<cell, farm, got>>)
DoChi(t, v) == /\ Abs([op |-> "Chi", t |-> t, v |-> v])
               /\ Set(t, [im[t] EXCEPT !.presc = v # "auto", !.chi = IF v = "auto" THEN <<>> ELSE <<v>>]) /\ Rest(<<cell, farm, got>>)
DoLoad(t, k, v, c, lam) ==
  LET w == IF c = "" THEN v ELSE cell[c]
      L == IF lam = "" THEN im[t].lam ELSE lam
      x == IF "loadwind" \in Bugs THEN "w0" ELSE Val(im[t].wind) IN
  /\ Abs([op |-> "Load", t |-> t, kind |-> k, r |-> "", v |-> w, lam |-> lam, ncyl |-> 1, law |-> ""])
  /\ Set(t, [im[t] EXCEPT !.gt = <<k, Field(t, v, c, "refload"), x, L>>, !.gl = IF k # "fun" THEN <<"gl", w, x, L>> ELSE IF "stalegl" \in Bugs THEN @ ELSE <<>>,
                          !.lam = IF "lamlost" \in Bugs THEN @ ELSE L])
  /\ Rest(<<cell, farm, got>>)
(* the turbine is replaced by a new one, made with everything it is given *)
DoNew(t, h, m, g, lam, ct) ==
  LET a0 == [New0(h) EXCEPT !.model = m, !.ground = g, !.lam = lam]
      a  == IF ct = "" THEN a0 ELSE a0 @@ [ct |-> ct]
      i0 == [Im0(h) EXCEPT !.model = IF "newmodel" \in Bugs THEN "VC" ELSE m, !.ground = g, !.lam = IF "newlam" \in Bugs THEN "inf" ELSE lam] IN
  /\ Abs(a @@ [t |-> t])
  /\ Set(t, IF ct = "" \/ "newct" \in Bugs THEN i0
            ELSE [i0 EXCEPT !.gt = <<"Ct", Own(ct), "w0", lam>>, !.gl = IF "newgl" \in Bugs THEN im[t].gl ELSE <<"gl", ct, "w0", lam>>])
  /\ Rest(<<cell, farm, got>>)
DoLoadBad(t, lam) == Abs([op |-> "LoadBad", t |-> t]) /\ Set(t, IF "badload" \in Bugs THEN [im[t] EXCEPT !.lam = lam] ELSE im[t]) /\ Rest(<<cell, farm, got>>)
DoGround(t, b) == Abs([op |-> "Ground", t |-> t, b |-> b]) /\ Set(t, [im[t] EXCEPT !.ground = b]) /\ Rest(<<cell, farm, got>>)
DoModel(t, m) == Abs([op |-> "Model", t |-> t, v |-> m]) /\ Set(t, [im[t] EXCEPT !.model = m]) /\ Rest(<<cell, farm, got>>)
(* a query keeps the skew it used, in the implementation *)
DoQuery(t, g) == /\ Abs([op |-> "Query", t |-> t])
                 /\ Set(t, [im[t] EXCEPT !.chi = IF @ = <<>> \/ ~im[t].presc THEN SkewI(im[t]) ELSE @,
                                         !.ground = IF "qground" \in Bugs /\ g # "" THEN g = "1" ELSE @,
                                         !.presc = IF "qpresc" \in Bugs THEN TRUE ELSE @])
                 /\ Rest(<<cell, farm, got>>)
DoMutate(c) == /\ cell' = [cell EXCEPT ![c] = IF @ = c \o "0" THEN c \o "1" ELSE c \o "0"] /\ Rest(<<st, im, farm, got>>)
(* ---- farm ---- *)
DoAppend(t) == Len(farm) < 3 /\ Abs([op |-> "Append", f |-> "F", t |-> t]) /\ farm' = Append(farm, t) /\ Rest(<<im, cell, got>>)
DoAppendBad == Abs([op |-> "AppendBad", f |-> "F"]) /\ farm' = (IF "appendbad" \in Bugs /\ Len(farm) < 3 THEN Append(farm, 0) ELSE farm) /\ Rest(<<im, cell, got>>)
Rows(v) == [q \in 1..Len(farm) |-> IF v = "same" THEN "h0" ELSE "p" \o ToString(q)]
Place(F(_)) == im' = [t \in Turbs |-> LET idx == {q \in 1..Len(farm) : farm[q] = t} IN
                       IF idx = {} THEN im[t] ELSE [im[t] EXCEPT !.hub = F(CHOOSE q \in idx : \A z \in idx : IF "firstrow" \in Bugs THEN q <= z ELSE z <= q)]]
DoSetLayout(v) == LET f(q) == Own(Rows(v)[q]) IN
                  /\ Abs([op |-> "SetLayout", f |-> "F", shape |-> <<Len(farm), 3>>, rows |-> Rows(v)]) /\ Place(f) /\ Rest(<<cell, farm, got>>)
(* the rows are rows of the caller's array, all "h" *)
DoSetLayoutCell == LET f(q) == Keep("h", "refrows") IN
                   /\ Abs([op |-> "SetLayout", f |-> "F", shape |-> <<Len(farm), 3>>, rows |-> [q \in 1..Len(farm) |-> cell["h"]]]) /\ Place(f) /\ Rest(<<cell, farm, got>>)
DoSetLayoutBad == LET f(q) == IF q = 1 THEN Own("bad") ELSE im[farm[q]].hub IN
                  /\ Abs([op |-> "SetLayout", f |-> "F", shape |-> <<Len(farm) + 1, 3>>, rows |-> <<>>])
                  /\ (IF "partial" \in Bugs /\ farm # <<>> THEN Place(f) ELSE im' = im) /\ Rest(<<cell, farm, got>>)
DoLayoutGet == Abs([op |-> "LayoutGet", f |-> "F"]) /\ got' = (IF "view" \in Bugs /\ farm # <<>> THEN "view" ELSE "copy") /\ Rest(<<im, cell, farm>>)
DoEditGot == /\ got # "none" /\ Rest(<<st, cell, farm, got>>)
             /\ LET f(q) == Own("edited") IN IF got = "view" /\ farm # <<>> THEN Place(f) ELSE im' = im

Vals(k) == {k \o "0", k \o "1"}
NextOne ==
  \E t \in Turbs :
    \/ \E y \in {"0", "y1"} : DoYaw(t, y)
    \/ \E w \in Vals("w") : DoWind(t, w, "")
    \/ \E h \in Vals("h") : DoPos(t, h, "")
    \/ \E f \in Vals("f") : DoFrame(t, f, "")
    \/ \E c \in {"auto", "c1"} : DoChi(t, c)
    \/ \E k \in {"Ct", "Gamma", "fun"}, l \in {"l0"}, lam \in {"", "inf", "L1"} : DoLoad(t, k, l, "", lam)
    \/ DoLoadBad(t, "L1")
    \/ \E m \in {"VC", "VCFF"}, g \in BOOLEAN, lam \in {"inf", "L1"}, ct \in {"", "l0"} : DoNew(t, "h0", m, g, lam, ct)
    \/ \E b \in BOOLEAN : DoGround(t, b)
    \/ \E m \in {"VC", "VCFF"} : DoModel(t, m)
    \/ \E g \in {"", "0", "1"} : DoQuery(t, g)
NextAlias ==
  \/ DoYaw(0, "y1") \/ DoFrame(0, "", "f") \/ DoLoad(0, "Ct", "", "l", "")
  \/ \E t \in Turbs : DoPos(t, "", "h") \/ DoWind(t, "", "w") \/ DoQuery(t, "")
  \/ \E c \in Cells : DoMutate(c)
NextFarm ==
  \/ \E t \in Turbs : DoAppend(t) \/ DoPos(t, "h1", "") \/ DoPos(t, "", "h")
  \/ DoAppendBad \/ DoSetLayoutBad \/ DoSetLayoutCell \/ DoLayoutGet \/ DoEditGot \/ DoMutate("h")
  \/ \E v \in {"same", "each"} : DoSetLayout(v)
Next == CASE Fam = "one" -> NextOne [] Fam = "alias" -> NextAlias [] Fam = "farm" -> NextFarm

Init == /\ st = [EmptyState EXCEPT !.wt = [t \in Turbs |-> NewSettings(New0("h0"))], !.farm = ("F" :> <<>>)]
        /\ im = [t \in Turbs |-> Im0("h0")]
        /\ cell = [c \in Cells |-> c \o "0"] /\ farm = <<>> /\ got = "none"
Spec == Init /\ [][Next]_vars

(* every query, on every turbine, now, agrees with the settings *)
Same == \A t \in Turbs : ObsI(im[t]) = ObsA(st.wt[t])
Members_ == farm = st.farm["F"]
LayoutSame == [q \in 1..Len(farm) |-> Val(im[farm[q]].hub)] = Layout(st, "F")
(* restoring the earlier settings restores the earlier answers: the answer is a function of the settings; and a query changes no setting *)
QueriesPure == [][(\E t \in Turbs, g \in {"", "0", "1"} : DoQuery(t, g)) => \A t \in Turbs : ObsI(im[t])' = ObsI(im[t])]_vars
=============================================================================
