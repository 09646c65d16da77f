------------------------------ MODULE TopoImpl ------------------------------
(* topo_sort_reverse: a depth-first search with an explicit work stack, and create_layer_map on its     *)
(* result. Clear = FALSE is a design mutant: finished vertices stay in the work set.                   *)
EXTENDS SmallGraphs
CONSTANT Clear
VARIABLES pc,      \* "grow", "source", "walk", "layer", "ok", "cycle"
          src,     \* next source (0-based)
          cur,     \* <<vertex, targets consumed>>
          stack, visited, working, order,
          layer, k
vars == <<g, at, pc, src, cur, stack, visited, working, order, layer, k>>
algo == <<pc, src, cur, stack, visited, working, order, layer, k>>
Init == /\ GrowInit /\ pc = "grow" /\ src = 0 /\ cur = <<0, 0>> /\ stack = <<>>
        /\ visited = {} /\ working = {} /\ order = <<>> /\ layer = <<>> /\ k = 1
Begin == Grown /\ pc' = "source" /\ UNCHANGED <<src, cur, stack, visited, working, order, layer, k>>
Source == /\ pc = "source" /\ UNCHANGED <<g, at, stack, visited, order, k>>
          /\ IF src >= Len(g)
             THEN pc' = "layer" /\ layer' = [v \in 1..Len(g) |-> 0] /\ UNCHANGED <<src, cur, working>>
             ELSE /\ src' = src + 1 /\ UNCHANGED layer
                  /\ IF src \in visited \/ Out(g, src) = <<>> THEN UNCHANGED <<pc, cur, working>>
                     ELSE pc' = "walk" /\ cur' = <<src, 0>> /\ working' = working \cup {src}
Walk == /\ pc = "walk" /\ UNCHANGED <<g, at, src, layer, k>>
        /\ IF cur[2] < Len(Out(g, cur[1]))
           THEN LET nx == Out(g, cur[1])[cur[2] + 1]  rest == <<cur[1], cur[2] + 1>> IN
                IF nx \in working THEN pc' = "cycle" /\ UNCHANGED <<cur, stack, visited, working, order>>
                ELSE IF nx \in visited THEN cur' = rest /\ UNCHANGED <<pc, stack, visited, working, order>>
                ELSE /\ stack' = Append(stack, rest) /\ working' = working \cup {nx} /\ cur' = <<nx, 0>>
                     /\ UNCHANGED <<pc, visited, order>>
           ELSE /\ order' = Append(order, cur[1]) /\ visited' = visited \cup {cur[1]}
                /\ working' = IF Clear THEN working \ {cur[1]} ELSE working
                /\ IF stack = <<>> THEN pc' = "source" /\ UNCHANGED <<cur, stack>>
                   ELSE cur' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED pc
Layer == /\ pc = "layer" /\ UNCHANGED <<g, at, src, cur, stack, visited, working, order>>
         /\ IF k <= Len(order)
            THEN LET v == order[k] IN
                   /\ layer' = [layer EXCEPT ![v + 1] =
                        IF Out(g, v) = <<>> THEN 0 ELSE 1 + MaxOf({layer[t + 1] : t \in SetOf(Out(g, v))})]
                   /\ k' = k + 1 /\ UNCHANGED pc
            ELSE pc' = "ok" /\ UNCHANGED <<layer, k>>
Next == (Grow /\ UNCHANGED algo) \/ Begin \/ Source \/ Walk \/ Layer
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Source \/ Walk \/ Layer)
(* What the code asserts on the way.                                                                   *)
Asserted == /\ (pc = "source" /\ src < Len(g) => src \notin working /\ stack = <<>>)
            /\ (pc = "walk" => cur[1] \in working /\ \A i \in 1..Len(stack) : stack[i][1] \in working /\ stack[i][1] \notin visited)
            /\ (pc = "layer" => working = {} /\ stack = <<>>)
Correct == /\ (pc = "cycle" => HasCycle(g))
           /\ (pc = "ok" => IsOrder(g, RevSeq(order)) /\ IsLayering(g, layer))
Terminates == <>(pc \in {"ok", "cycle"})
=============================================================================
