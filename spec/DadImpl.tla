------------------------------ MODULE DadImpl ------------------------------
(* shortestPathGeneric, shape of the code: vl holds minus the tentative distance of unseen vertices    *)
(* and the distance of finished ones; Unseen stands for "none yet", one below it is the sentinel that  *)
(* makes `min` the first unfinished vertex at worst. Mode "ok" is the code; "late" compares with <=    *)
(* in the wrong direction (takes the farthest vertex), "noreset" keeps the sentinel as root distance.   *)
EXTENDS Weights
CONSTANTS N, W, Mode
VARIABLES w, root, target, pc, vl, dad, min
vars == <<w, root, target, pc, vl, dad, min>>
Unseen == 1000
Below == {x \in (1..N) \X (1..N) : x[2] < x[1]}
Lower == [i \in 1..N |-> [j \in 1..i |-> IF i = j THEN 0 ELSE w[<<i, j>>]]]
Init == /\ w \in [Below -> 0..W] /\ root \in 0..(N - 1) /\ target \in 0..(N - 1)
        /\ pc = "run" /\ vl = [v \in 0..(N - 1) |-> -Unseen] /\ dad = [v \in 1..N |-> -1] /\ min = root
At(i, j) == IF i = j THEN 0 ELSE IF i > j THEN w[<<i + 1, j + 1>>] ELSE w[<<j + 1, i + 1>>]
Val(v, f) == IF v = -1 THEN -(Unseen + 1) ELSE f[v]
(* The scan over t = 0..N-1 updates vl and dad and keeps the best unfinished vertex.                   *)
RECURSIVE Scan(_, _, _, _, _)
Scan(t, k, f, d, m) ==
  IF t = N THEN <<f, d, m>>
  ELSE IF f[t] >= 0 THEN Scan(t + 1, k, f, d, m)
  ELSE LET wkt == At(k, t)
           p == -(f[k] + wkt)
           imp == wkt # 0 /\ f[t] < p
           f2 == IF imp THEN [f EXCEPT ![t] = p] ELSE f
           d2 == IF imp THEN [d EXCEPT ![t + 1] = k] ELSE d
           m2 == IF Mode = "late" THEN (IF m = -1 \/ f2[t] < f2[m] THEN t ELSE m)
                 ELSE (IF f2[t] > Val(m, f2) THEN t ELSE m)
       IN Scan(t + 1, k, f2, d2, m2)
Step == /\ pc = "run" /\ min # target /\ min # -1
        /\ LET k == min
               x == -vl[k]
               f == [vl EXCEPT ![k] = IF x = Unseen /\ Mode # "noreset" THEN 0 ELSE x]
               r == Scan(0, k, f, dad, -1)
           IN vl' = r[1] /\ dad' = r[2] /\ min' = r[3]
        /\ UNCHANGED <<w, root, target, pc>>
Stop == pc = "run" /\ min = target /\ pc' = "done" /\ UNCHANGED <<w, root, target, vl, dad, min>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
Correct == pc = "done" => IsPredecessors(N, MatrixEdges(Lower), root, target, dad)
(* The loop never runs out of vertices before it meets the target.                                     *)
Meets == min # -1
(* Finished vertices have their final distance.                                                        *)
Final == pc = "run" => LET d == Dist(N, MatrixEdges(Lower), root) IN
           \A v \in 0..(N - 1) : (vl[v] >= 0 /\ d[v + 1] # Inf) => vl[v] = d[v + 1]
=============================================================================
