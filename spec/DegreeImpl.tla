----------------------------- MODULE DegreeImpl -----------------------------
(* add_degree and its relatives: one pass over a list of vertices. Counts are limited to Max (65535 in   *)
(* the code): at the limit a count stays and the result tells so. The pass over a list of marks          *)
(* (find_referenced_edges, and find_sources with the marks the other way round) is the same one.         *)
(* MUT: "wrap" the count starts again; "stop" the first overflow ends the pass; "last" only tells about   *)
(* the last item; "early" tells when the limit is reached; "fresh" forgets the prior counts.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS N, M, Max
VARIABLES prior, es, pc, k, deg, sat, marks
vars == <<prior, es, pc, k, deg, sat, marks>>
Mut == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE "none"
Init == /\ \E n \in 0..N : prior \in [1..n -> 0..Max]
        /\ es = <<>> /\ pc = "grow" /\ k = 1 /\ deg = <<>> /\ sat = FALSE /\ marks = <<>>
Grow == pc = "grow" /\ Len(es) < M /\ \E v \in 0..(Len(prior) - 1) : es' = Append(es, v) /\ UNCHANGED <<prior, pc, k, deg, sat, marks>>
Begin == /\ pc = "grow" /\ pc' = "run" /\ deg' = IF Mut = "fresh" THEN [v \in 1..Len(prior) |-> 0] ELSE prior
         /\ marks' = [v \in 1..Len(prior) |-> FALSE] /\ UNCHANGED <<prior, es, k, sat>>
Step == /\ pc = "run" /\ UNCHANGED <<prior, es>>
        /\ IF k > Len(es) THEN pc' = "done" /\ UNCHANGED <<k, deg, sat, marks>>
           ELSE LET v == es[k] + 1  full == deg[v] = Max IN
                /\ deg' = [deg EXCEPT ![v] = IF ~full THEN @ + 1 ELSE IF Mut = "wrap" THEN 0 ELSE @]
                /\ sat' = CASE Mut = "last" -> full
                            [] Mut = "early" -> sat \/ deg'[v] = Max
                            [] OTHER -> sat \/ full
                /\ marks' = [marks EXCEPT ![v] = TRUE]
                /\ k' = IF Mut = "stop" /\ full THEN Len(es) + 1 ELSE k + 1
                /\ UNCHANGED pc
Next == Grow \/ Begin \/ Step
Spec == Init /\ [][Next]_vars
Times(v) == Cardinality({i \in 1..Len(es) : es[i] = v})
Least(x, y) == IF x < y THEN x ELSE y
Correct == pc = "done" =>
  /\ \A v \in 1..Len(prior) : deg[v] = Least(Max, prior[v] + Times(v - 1)) /\ (marks[v] <=> Times(v - 1) > 0)
  /\ sat <=> \E v \in 1..Len(prior) : prior[v] + Times(v - 1) > Max
=============================================================================
