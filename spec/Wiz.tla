-------------------------------- MODULE Wiz --------------------------------
(* Turbines and farms as a state machine. Values (numbers, vectors, arrays) are opaque: the transitions only store    *)
(* and copy them. The same transition function is used by the exhaustive models (MC*.tla), to generate behaviours     *)
(* that are replayed into the code (Gen*.tla) and to follow traces recorded from the code (WizTrace.tla).             *)
(*                                                                                                                   *)
(* st = [wt   : turbine id -> settings,                                                                              *)
(*       farm : farm id -> sequence of turbine ids,                                                                 *)
(*       disk : file name -> what was last saved under it]                                                          *)
(* Every action is a record a with a.op; Apply(st,a) is the state after it if it is accepted, and a rejected action   *)
(* leaves the state unchanged. Queries never change the state.                                                       *)
EXTENDS Integers, Sequences, TLC

NoLoad == [kind |-> "none", r |-> "", v |-> "", lam |-> "", ncyl |-> 1, wind |-> "", law |-> ""]
EmptyState == [wt |-> <<>>, farm |-> <<>>, disk |-> <<>>]

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetWt(st, t, s) == [st EXCEPT !.wt = Put(st.wt, t, s)]

(* a loading keeps the wind it was made with; the tip-speed ratio given is remembered for later loadings *)
LoadOf(s, a) == [kind |-> a.kind, r |-> a.r, v |-> a.v, lam |-> IF a.lam = "" THEN s.lam ELSE a.lam,
                 ncyl |-> a.ncyl, wind |-> s.wind, law |-> a.law]
Loaded(s, a) == [s EXCEPT !.load = LoadOf(s, a), !.lam = IF a.lam = "" THEN s.lam ELSE a.lam]

Bare(a) == [R |-> a.R, shaft |-> a.shaft, vert |-> a.vert, hub |-> a.hub, yaw |-> "0", wind |-> a.wind,
            chi |-> "auto", ground |-> a.ground, model |-> a.model, lam |-> a.lam, load |-> NoLoad]
(* a turbine made with a thrust coefficient is one loaded with it right away *)
NewSettings(a) == IF "ct" \in DOMAIN a
                  THEN Loaded(Bare(a), [kind |-> "Ct", r |-> "", v |-> a.ct, lam |-> "", ncyl |-> 1, law |-> ""])
                  ELSE Bare(a)

RECURSIVE MoveAll(_, _, _, _)
MoveAll(st, ids, rows, i) ==
  IF i > Len(ids) THEN st ELSE MoveAll([st EXCEPT !.wt[ids[i]].hub = rows[i]], ids, rows, i + 1)

Settings(st, t) == st.wt[t]
Members(st, f)  == st.farm[f]
Layout(st, f)   == [i \in 1..Len(st.farm[f]) |-> st.wt[st.farm[f][i]].hub]

Queries == {"Query", "Angles", "Loading", "Disk", "Repr", "LayoutGet", "FarmQuery", "FarmRepr", "Count", "Mutate", "Kernel", "ReadFile", "Note"}

Apply(st, a) ==
  CASE a.op = "New"     -> SetWt(st, a.t, NewSettings(a))
    [] a.op = "Frame"   -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.shaft = a.shaft, !.vert = a.vert, !.yaw = "0"])
    [] a.op = "Yaw"     -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.yaw = a.v])
    [] a.op = "Pos"     -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.hub = a.v])
    [] a.op = "Wind"    -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.wind = a.v])
    [] a.op = "Chi"     -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.chi = a.v])
    [] a.op = "Ground"  -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.ground = a.b])
    [] a.op = "Model"   -> SetWt(st, a.t, [st.wt[a.t] EXCEPT !.model = a.v])
    [] a.op = "Load"    -> SetWt(st, a.t, Loaded(st.wt[a.t], a))
    [] a.op = "FarmNew" -> [st EXCEPT !.farm = Put(st.farm, a.f, a.ts)]
    [] a.op = "Append"  -> [st EXCEPT !.farm[a.f] = Append(@, a.t)]
    [] a.op = "SetLayout" -> MoveAll(st, st.farm[a.f], a.rows, 1)
    [] a.op = "Save"    -> [st EXCEPT !.disk = Put(st.disk, a.key, a.data)]
    \* a turbine saved to a file, and one made from such a file
    [] a.op = "SaveWt"  -> [st EXCEPT !.disk = Put(st.disk, a.key, [kind |-> "wt", s |-> st.wt[a.t]])]
    [] a.op = "LoadWt"  -> SetWt(st, a.t, st.disk[a.key].s)
    [] a.op \in Queries -> st

(* is the request acceptable? (the outcome of queries is defined in Turbine.tla) *)
Accepts(st, a) ==
  CASE a.op = "AppendBad" -> FALSE
    [] a.op = "LoadBad"   -> FALSE
    [] a.op = "SetLayout" -> a.shape = <<Len(st.farm[a.f]), 3>>
    [] OTHER -> TRUE
Step(st, a) == IF Accepts(st, a) THEN Apply(st, a) ELSE st

(* --- what a query may depend on --- *)
(* Two queries with the same key must have the same answer, whatever happened before, between and elsewhere. *)
QueryKey(st, a) == <<st.wt[a.t], a.o, a.X, a.Y, a.Z>>
=============================================================================
