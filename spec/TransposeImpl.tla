---------------------------- MODULE TransposeImpl ----------------------------
(* Graph::transpose: a counting sort of the edges by target.                                           *)
EXTENDS SmallGraphs
VARIABLES index,   \* start of every target's block (after integration)
          counts,  \* edges written to each block
          values,  \* output; -1 is the placeholder
          pc, k    \* stage and position in it
vars == <<g, at, index, counts, values, pc, k>>
Init == GrowInit /\ index = <<>> /\ counts = <<>> /\ values = <<>> /\ pc = "grow" /\ k = 0
Begin == /\ Grown /\ pc = "grow" /\ pc' = "count" /\ k' = 1
         /\ index' = [i \in 1..(Len(g) + 1) |-> 0]
         /\ counts' = [i \in 1..Len(g) |-> 0]
         /\ values' = [i \in 1..NumEdges(g) |-> -1]
All == FlatG(g)
CountStep == /\ pc = "count" /\ UNCHANGED <<g, at, counts, values>>
             /\ IF k <= Len(All) THEN index' = [index EXCEPT ![(IF Mut = "origin" THEN EdgeSeq(g)[k][1] ELSE All[k]) + 2] = @ + 1] /\ k' = k + 1 /\ pc' = pc
                ELSE pc' = "sum" /\ k' = 2 /\ UNCHANGED index
SumStep == /\ pc = "sum" /\ UNCHANGED <<g, at, counts, values>>
           /\ IF k <= Len(index) - (IF Mut = "sumshort" THEN 1 ELSE 0) THEN index' = [index EXCEPT ![k] = @ + index[k - 1]] /\ k' = k + 1 /\ pc' = pc
              ELSE pc' = "place" /\ k' = 1 /\ UNCHANGED index
Next1 == EdgeSeq(g)[IF Mut = "backwards" THEN Len(All) + 1 - k ELSE k]
Place == /\ pc = "place" /\ UNCHANGED <<g, at, index>>
         /\ IF k <= Len(All)
            THEN LET e == Next1  p == index[e[2] + 1] + counts[e[2] + 1] + 1 IN
                   /\ values' = [values EXCEPT ![p] = e[1]]
                   /\ counts' = [counts EXCEPT ![e[2] + 1] = IF Mut = "loop" /\ e[1] = e[2] THEN @ ELSE @ + 1]
                   /\ k' = k + 1 /\ pc' = pc
            ELSE pc' = "done" /\ UNCHANGED <<values, counts, k>>
Next == (Grow /\ UNCHANGED <<index, counts, values, pc, k>>) \/ Begin \/ CountStep \/ SumStep \/ Place
Spec == Init /\ [][Next]_vars
(* The code asserts that every slot is written once.                                                   *)
SlotFree == pc = "place" /\ k <= Len(All) =>
   LET e == Next1  p == index[e[2] + 1] + counts[e[2] + 1] + 1 IN p \in 1..Len(values) /\ values[p] = -1
Result == [v \in 1..Len(g) |-> SubSeq(values, index[v] + 1, index[v + 1])]
Correct == pc = "done" => Result = Transposed(g) /\ index[Len(index)] = Len(values)
=============================================================================
