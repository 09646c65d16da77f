------------------------------ MODULE BuildImpl ------------------------------
(* GraphBuilder: edges are kept per origin in a map; build visits the origins in order, finishing the     *)
(* vertices in between, and afterwards those up to the largest vertex named. The rows themselves are      *)
(* those of a ramp table: an index of starts, and the values.                                            *)
(* MUT: "gap" finishes one vertex too few; "tail" forgets vertices that are only targets; "order" keeps    *)
(* the newest edge first; "set" keeps equal edges of an origin once; "unsorted" takes origins as they came.*)
EXTENDS Graph, IOUtils
CONSTANTS N, M
VARIABLES es, pc, map, first, todo, index, values
vars == <<es, pc, map, first, todo, index, values>>
Mut == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE "none"
Init == es = <<>> /\ pc = "grow" /\ map = [v \in 0..(N - 1) |-> <<>>] /\ first = <<>> /\ todo = <<>> /\ index = <<0>> /\ values = <<>>
Edge == /\ pc = "grow" /\ Len(es) < M
        /\ \E f, t \in 0..(N - 1) :
             /\ es' = Append(es, <<f, t>>)
             /\ first' = IF map[f] = <<>> THEN Append(first, f) ELSE first
             /\ map' = [map EXCEPT ![f] = IF Mut = "order" THEN <<t>> \o @ ELSE IF Mut = "set" /\ t \in SetOf(@) THEN @ ELSE Append(@, t)]
        /\ UNCHANGED <<pc, todo, index, values>>
Build == /\ pc = "grow" /\ pc' = "rows" /\ UNCHANGED <<es, map, first, index, values>>
         /\ todo' = IF Mut = "unsorted" THEN first ELSE SelectSeq([i \in 1..N |-> i - 1], LAMBDA v : v \in SetOf(first))
Keys == Len(index) - 1
Row == /\ pc = "rows" /\ UNCHANGED <<es, map, first>>
       /\ IF todo = <<>> THEN pc' = "tail" /\ UNCHANGED <<todo, index, values>>
          ELSE IF Keys < Head(todo) - (IF Mut = "gap" THEN 1 ELSE 0)
          THEN index' = Append(index, Len(values)) /\ UNCHANGED <<pc, todo, values>>
          ELSE /\ values' = values \o map[Head(todo)] /\ index' = Append(index, Len(values'))
               /\ todo' = Tail(todo) /\ UNCHANGED pc
NumVerts == IF es = <<>> THEN 0 ELSE 1 + MaxOf({e[1] : e \in SetOf(es)} \cup (IF Mut = "tail" THEN {} ELSE {e[2] : e \in SetOf(es)}))
End == /\ pc = "tail" /\ UNCHANGED <<es, map, first, todo, values>>
       /\ IF Keys < NumVerts THEN index' = Append(index, Len(values)) /\ UNCHANGED pc
          ELSE pc' = "done" /\ UNCHANGED index
Next == Edge \/ Build \/ Row \/ End
Spec == Init /\ [][Next]_vars
Result == [v \in 1..Keys |-> SubSeq(values, index[v] + 1, index[v + 1])]
Correct == pc = "done" => Result = Built(es) /\ WellFormed(Result) /\ index[Len(index)] = Len(values)
=============================================================================
