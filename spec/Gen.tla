-------------------------------- MODULE Gen --------------------------------
(* Behaviours of the state machine of Wiz.tla over small sets of names for values. Every behaviour of length Depth is  *)
(* printed (exhaustive search) or a sample of long ones (-simulate); the drivers give the names concrete values, run   *)
(* the behaviours in the real code, record them and hand them back to WizTrace.                                        *)
EXTENDS Wiz, Json, IOUtils, FiniteSets
Fam   == IOEnv.GEN_FAMILY
Depth == atoi(IOEnv.GEN_DEPTH)

VARIABLES st, hist

Turb(h) == [op |-> "New", R |-> "R", shaft |-> "f0", vert |-> "v", hub |-> h, wind |-> "w0", ground |-> FALSE, model |-> "VC", lam |-> "inf"]
Init3 == [EmptyState EXCEPT !.wt = [t \in 0..2 |-> NewSettings(Turb("p0"))]]
A(op, t, v) == [op |-> op, t |-> t, v |-> v]
Ld(t, v) == [op |-> "Load", t |-> t, kind |-> v, r |-> v, v |-> v, lam |-> IF v = "l1" THEN "lam" ELSE "", ncyl |-> 1, law |-> ""]

(* one turbine: every re-configuration *)
One ==
  {A("Yaw", 0, y) : y \in {"y0", "y1", "y1t"}} \cup {A("Wind", 0, w) : w \in {"w0", "w1", "w2"}} \cup {A("Chi", 0, x) : x \in {"auto", "c1"}}
  \cup {Ld(0, l) : l \in {"l0", "l1", "l2"}} \cup {[op |-> "Ground", t |-> 0, b |-> b] : b \in BOOLEAN}
  \cup {A("Model", 0, m) : m \in {"VC", "VCFF"}} \cup {A("Pos", 0, p) : p \in {"p0", "p1"}} \cup {[op |-> "Frame", t |-> 0, shaft |-> "f1", vert |-> "v"]}
  \cup {A("Query", 0, "q"), A("Angles", 0, "")}

(* two turbines handed the same arrays, which the caller keeps editing; results are edited too *)
Alias ==
  {A("Pos", t, "ha") : t \in 0..1} \cup {A("Wind", t, "wa") : t \in 0..1} \cup {Ld(t, "la") : t \in 0..1} \cup {Ld(0, "lf")}
  \cup {[op |-> "Frame", t |-> t, shaft |-> "fa", vert |-> "va"] : t \in 0..1} \cup {A("Yaw", 0, "y1")}
  \cup {A("Mutate", 0, x) : x \in {"ha", "wa", "la", "fa", "law", "got", "res", "lay"}}
  \cup {A("Query", t, "keep") : t \in 0..1} \cup {[op |-> "LayoutGet", f |-> "F", v |-> "keep"], [op |-> "SetLayout", f |-> "F", rows |-> <<"la0", "la1">>]}

(* a farm of up to three distinct turbines (possibly listed twice) *)
Farm ==
  {[op |-> "Append", f |-> "F", t |-> t] : t \in 0..2} \cup {[op |-> "AppendBad", f |-> "F", v |-> x] : x \in {"none", "dict", "farm"}}
  \cup {[op |-> "SetLayout", f |-> "F", v |-> x] : x \in {"L0", "L1"}}
  \cup {[op |-> "SetLayoutBad", f |-> "F", v |-> x] : x \in {"more", "fewer", "two", "four", "transposed", "flat", "scalar", "deep", "nested"}}
  \cup {A("Pos", 1, "p1"), A("Yaw", 0, "y1"), [op |-> "LayoutGet", f |-> "F", v |-> ""], [op |-> "Count", f |-> "F"], [op |-> "FarmRepr", f |-> "F"]}

Acts == CASE Fam = "one" -> One [] Fam = "alias" -> Alias [] Fam = "farm" -> Farm

(* actions that only make sense later: editing something that was never handed over; repetitions that cannot matter *)
Done(op, x) == \E k \in 1..Len(hist) : hist[k].op = op /\ (x = "" \/ ("v" \in DOMAIN hist[k] /\ hist[k].v = x))
Useful(a) ==
  /\ (a.op = "Mutate" => CASE a.v = "ha" -> Done("Pos", "") [] a.v = "wa" -> Done("Wind", "") [] a.v = "la" -> Done("Load", "la") [] a.v = "fa" -> Done("Frame", "")
                           [] a.v = "law" -> Done("Load", "lf") [] a.v = "got" -> Done("LayoutGet", "") [] a.v = "res" -> Done("Query", "") [] a.v = "lay" -> Done("SetLayout", ""))
  /\ (Len(hist) > 0 => a # hist[Len(hist)] \/ a.op = "Append")
Guarded(a) == IF a.op = "SetLayoutBad" THEN st ELSE IF a.op = "SetLayout" \/ a.op = "AppendBad" THEN st ELSE Apply(st, a)

Init == st = [Init3 EXCEPT !.farm = ("F" :> (IF Fam = "alias" THEN <<0, 1>> ELSE <<>>))] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : Useful(a) /\ hist' = Append(hist, a) /\ st' = Guarded(a)
        /\ (Len(hist') = Depth => PrintT("BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<st, hist>>
============================================================================
