---------------------------- MODULE BuilderImpl ----------------------------
(* RampTableBuilder::finish: sort the pairs by key (stably), then append them one by one to a ramp     *)
(* table, finishing keys as they pass. Stable = FALSE is a design mutant: any sorted permutation.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxLen, Stable
VARIABLES pairs,   \* as pushed: keys; the value of a pair is its position
          sorted,  \* positions in the order in which they are appended
          rows, tail, pc
vars == <<pairs, sorted, rows, tail, pc>>
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
IsSorted(p) == \A i \in 1..(Len(pairs) - 1) : pairs[p[i]] < pairs[p[i + 1]]
                 \/ (pairs[p[i]] = pairs[p[i + 1]] /\ (Stable => p[i] < p[i + 1]))
Init == pairs = <<>> /\ sorted = <<>> /\ rows = <<>> /\ tail = <<>> /\ pc = "push"
Push == pc = "push" /\ Len(pairs) < MaxLen /\ \E k \in Keys : pairs' = Append(pairs, k)
        /\ UNCHANGED <<sorted, rows, tail, pc>>
Sort == pc = "push" /\ \E p \in Perms(Len(pairs)) : IsSorted(p) /\ sorted' = p
        /\ pc' = "append" /\ UNCHANGED <<pairs, rows, tail>>
Last == IF sorted = <<>> THEN -1 ELSE pairs[sorted[Len(pairs)]]
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE Len(Head(r)) + Total(Tail(r))
Pos == Total(rows) + Len(tail)
FinishKey == rows' = Append(rows, tail) /\ tail' = <<>>
AppendOne ==
  /\ pc = "append"
  /\ IF Pos < Len(pairs)
     THEN LET p == sorted[Pos + 1] IN
          IF Len(rows) < pairs[p] THEN FinishKey /\ UNCHANGED pc
          ELSE tail' = Append(tail, p) /\ UNCHANGED <<rows, pc>>
     ELSE IF Len(rows) < Last + 1 THEN FinishKey /\ UNCHANGED pc
          ELSE pc' = "done" /\ UNCHANGED <<rows, tail>>
  /\ UNCHANGED <<pairs, sorted>>
Next == Push \/ Sort \/ AppendOne
Spec == Init /\ [][Next]_vars
Of(k) == SelectSeq([i \in 1..Len(pairs) |-> i], LAMBDA i : pairs[i] = k)
Grouped == pc = "done" =>
  /\ tail = <<>>
  /\ Len(rows) = IF pairs = <<>> THEN 0 ELSE 1 + (CHOOSE m \in {pairs[i] : i \in 1..Len(pairs)} :
                                                     \A i \in 1..Len(pairs) : pairs[i] <= m)
  /\ \A k \in 1..Len(rows) : rows[k] = Of(k - 1)
=============================================================================
