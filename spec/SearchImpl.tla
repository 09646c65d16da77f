----------------------------- MODULE SearchImpl -----------------------------
(* find_shortest_path, shape of the code: a frontier of paths, the least weight found for each vertex, *)
(* and the paths as links to their prefixes. The frontier is taken in ANY order, so the result does    *)
(* not rest on the order in which the heap yields paths. Mode is "ok" for the design of the code;      *)
(* "early" stops at the first path that arrives; "nolimit" also extends paths that are no improvement. *)
EXTENDS Weights
CONSTANTS N, M, W, Mode
VARIABLES E, pc, front, paths, best, found
vars == <<E, pc, front, paths, best, found>>
S == 0
T == N - 1
Init == /\ E = {} /\ pc = "grow" /\ front = {} /\ paths = <<>> /\ best = <<>> /\ found = 0
Grow == /\ pc = "grow" /\ Cardinality(E) < M
        /\ \E u, v \in 0..(N - 1), w \in 0..W : /\ \A e \in E : e[1] # u \/ e[2] # v
                                                /\ \A e \in E : e[1] < u \/ (e[1] = u /\ e[2] < v)
                                                /\ E' = E \cup {<<u, v, w>>}
        /\ UNCHANGED <<pc, front, paths, best, found>>
Begin == /\ pc = "grow" /\ pc' = "run" /\ front' = {1} /\ paths' = <<[v |-> S, w |-> 0, prev |-> 0]>>
         /\ best' = [v \in 0..(N - 1) |-> IF v = S THEN 0 ELSE Inf] /\ UNCHANGED <<E, found>>
Take ==
  /\ pc = "run" /\ front # {}
  /\ \E p \in front :
       LET u == paths[p].v
           \* the edges of u in some fixed order (at most one per target)
           es == {e \in E : e[1] = u /\ (Mode = "nolimit" \/ paths[p].w + e[3] < best[e[2]])}
           num(e) == Cardinality({x \in es : x[2] <= e[2]})
           new == [i \in 1..Cardinality(es) |-> LET e == CHOOSE x \in es : num(x) = i
                                                IN [v |-> e[2], w |-> paths[p].w + e[3], prev |-> p]]
       IN IF u = T
          THEN /\ found' = IF found = 0 \/ paths[found].w > paths[p].w THEN p ELSE found
               /\ front' = IF Mode = "early" THEN {} ELSE front \ {p}
               /\ UNCHANGED <<paths, best>>
          ELSE /\ paths' = paths \o new
               /\ front' = (front \ {p}) \cup (Len(paths) + 1)..(Len(paths) + Len(new))
               /\ best' = [v \in 0..(N - 1) |-> MinOf({best[v]} \cup {new[i].w : i \in {i \in 1..Len(new) : new[i].v = v}})]
               /\ UNCHANGED found
  /\ UNCHANGED <<E, pc>>
End == pc = "run" /\ front = {} /\ pc' = "done" /\ UNCHANGED <<E, front, paths, best, found>>
Next == Grow \/ Begin \/ Take \/ End
Spec == Init /\ [][Next]_vars
RECURSIVE Links(_)
Links(p) == IF p = 0 THEN <<>> ELSE <<paths[p].v>> \o Links(paths[p].prev)
Correct == pc = "done" => IsLeastPath(N, E, S, T, found # 0, Links(found))
(* Bounds the work: without improvement no extension, so there are at most as many paths as there are  *)
(* improvements; this is also what makes the search end on cycles.                                     *)
NoRepeats == \A p \in 1..Len(paths) : LET l == Links(p) IN Cardinality({l[i] : i \in 1..Len(l)}) = Len(l)
=============================================================================
