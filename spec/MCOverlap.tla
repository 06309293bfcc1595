----------------------------- MODULE MCOverlap -----------------------------
(* Queries of one turbine that overlap in time (two callers, every interleaving of their steps) or are broken off at any step: *)
(* an implementation-shaped query (options resolved, skew derived and kept in the object, contributions summed one by one)     *)
(* must answer each request as the abstract function of the settings and the request does, whatever the other caller is doing  *)
(* and whatever was broken off before. Deviations: ways in which a query may keep something that others see.                   *)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils
Bug == IOEnv.MC_BUGS
Procs == IF Bug = "nofinally" THEN {1} ELSE {1, 2}
Rounds == 2
VARIABLES pc, req, obj, loc, ans, buf, cache, n
vars == <<pc, req, obj, loc, ans, buf, cache, n>>

Request == [g: {"own", "on", "off"}, part: {"tang", "root"}]
Skew(o) == o.wind                               \* derived from the settings
Resolve(r, own) == IF r.g = "own" THEN own ELSE r.g = "on"
(* the abstract answer: the set of contributions *)
Sum(r, g, chi) == {<<r.part, "direct", chi>>} \cup (IF g THEN {<<r.part, "image", chi>>} ELSE {})
Answer(r, own, w) == Sum(r, Resolve(r, own), w)

Nothing == [g |-> FALSE, saved |-> FALSE, sum |-> {}]
Init == /\ pc = [p \in Procs |-> "idle"] /\ req = [p \in Procs |-> CHOOSE r \in Request : TRUE]
        /\ obj \in [ground: BOOLEAN, chi: {"none"}, wind: {"w"}]
        /\ loc = [p \in Procs |-> Nothing] /\ ans = {} /\ buf = {} /\ cache = [key |-> <<>>, val |-> {}] /\ n = [p \in Procs |-> 0]

Ask(p) == /\ pc[p] = "idle" /\ n[p] < Rounds
          /\ \E r \in Request :
               /\ req' = [req EXCEPT ![p] = r]
               /\ LET t == Bug \in {"override", "nofinally"} /\ r.g # "own" IN
                  /\ loc' = [loc EXCEPT ![p] = [Nothing EXCEPT !.saved = obj.ground, !.g = Resolve(r, obj.ground)]]
                  /\ obj' = IF t THEN [obj EXCEPT !.ground = Resolve(r, obj.ground)] ELSE obj
          /\ pc' = [pc EXCEPT ![p] = "skew"] /\ n' = [n EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<ans, buf, cache>>
SetSkew(p) == /\ pc[p] = "skew" /\ pc' = [pc EXCEPT ![p] = "skew2"]
              /\ obj' = IF Bug = "chinone" THEN [obj EXCEPT !.chi = "none"] ELSE [obj EXCEPT !.chi = Skew(obj)]
              /\ UNCHANGED <<req, loc, ans, buf, cache, n>>
SetSkew2(p) == /\ pc[p] = "skew2" /\ pc' = [pc EXCEPT ![p] = "look"]
               /\ obj' = [obj EXCEPT !.chi = Skew(obj)] /\ UNCHANGED <<req, loc, ans, buf, cache, n>>
Look(p) == /\ pc[p] = "look" /\ pc' = [pc EXCEPT ![p] = "first"]
           /\ loc' = IF Bug \in {"override", "nofinally"} THEN [loc EXCEPT ![p].g = obj.ground] ELSE loc
           /\ UNCHANGED <<req, obj, ans, buf, cache, n>>
Key(p) == <<req[p].part, loc[p].g>>
First(p) == /\ pc[p] = "first"
            /\ LET d == {<<req[p].part, "direct", obj.chi>>} IN
               CASE Bug = "buffer" -> buf' = d /\ UNCHANGED <<loc, cache>> /\ pc' = [pc EXCEPT ![p] = "second"]
                 [] Bug = "cache" -> /\ UNCHANGED buf
                                     /\ IF cache.key = Key(p) THEN loc' = [loc EXCEPT ![p].sum = cache.val] /\ UNCHANGED cache /\ pc' = [pc EXCEPT ![p] = "give"]
                                        ELSE cache' = [cache EXCEPT !.key = Key(p)] /\ loc' = [loc EXCEPT ![p].sum = d] /\ pc' = [pc EXCEPT ![p] = "second"]
                 [] OTHER -> loc' = [loc EXCEPT ![p].sum = d] /\ UNCHANGED <<buf, cache>> /\ pc' = [pc EXCEPT ![p] = "second"]
            /\ UNCHANGED <<req, obj, ans, n>>
Second(p) == /\ pc[p] = "second" /\ pc' = [pc EXCEPT ![p] = "give"]
             /\ LET d == IF loc[p].g THEN {<<req[p].part, "image", obj.chi>>} ELSE {} IN
                IF Bug = "buffer" THEN buf' = buf \cup d /\ UNCHANGED <<loc, cache>>
                ELSE /\ loc' = [loc EXCEPT ![p].sum = @ \cup d] /\ UNCHANGED buf
                     /\ cache' = IF Bug = "cache" THEN [cache EXCEPT !.val = loc[p].sum \cup d] ELSE cache
             /\ UNCHANGED <<req, obj, ans, n>>
Restored(p) == IF Bug \in {"override", "nofinally"} /\ req[p].g # "own" THEN [obj EXCEPT !.ground = loc[p].saved] ELSE obj
Give(p) == /\ pc[p] = "give" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ ans' = ans \cup {<<req[p], IF Bug = "buffer" THEN buf ELSE loc[p].sum>>}
           /\ obj' = Restored(p) /\ UNCHANGED <<req, loc, buf, cache, n>>
(* broken off: what the query would have tidied up in any case is tidied up *)
Break(p) == /\ pc[p] # "idle" /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ obj' = IF Bug = "nofinally" THEN obj ELSE Restored(p)
            /\ UNCHANGED <<req, loc, ans, buf, cache, n>>
Next == \E p \in Procs : Ask(p) \/ SetSkew(p) \/ SetSkew2(p) \/ Look(p) \/ First(p) \/ Second(p) \/ Give(p) \/ Break(p)
(* the settings of the turbine as its user knows them: never changed by a query *)
InitG(g) == Init /\ obj.ground = g
G == IOEnv.MC_GROUND = "1"
Spec == InitG(G) /\ [][Next]_vars
AnswersOK == \A a \in ans : a[2] = Answer(a[1], G, "w")
SettingsOK == (\A p \in Procs : pc[p] = "idle") => obj.ground = G
=============================================================================
