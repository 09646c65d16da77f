-------------------------------- MODULE PQ --------------------------------
(* The abstract priority queue: a set of items with unique identities and priorities. Removal hands   *)
(* out some item of greatest priority.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prios, MaxIns
VARIABLES bag,     \* set of <<priority, identity>>
          count,   \* number of insertions so far (gives identities)
          removed  \* what the last removal returned
vars == <<bag, count, removed>>
Init == bag = {} /\ count = 0 /\ removed = <<>>
Insert(p) == bag' = bag \cup {<<p, count + 1>>} /\ count' = count + 1 /\ removed' = <<>>
Greatest(b) == {x \in b : \A y \in b : y[1] <= x[1]}
IsGreatest(x) == x \in bag /\ \A y \in bag : y[1] <= x[1]
Take(x) == IsGreatest(x) /\ bag' = bag \ {x} /\ removed' = x /\ UNCHANGED count
RemoveEmpty == bag = {} /\ removed' = <<>> /\ UNCHANGED <<bag, count>>
Clear == bag' = {} /\ removed' = <<>> /\ UNCHANGED count
Next == (count < MaxIns /\ \E p \in Prios : Insert(p)) \/ (\E x \in bag : Take(x)) \/ RemoveEmpty \/ Clear
Agree == Greatest(bag) = {x \in bag : IsGreatest(x)}
Spec == Init /\ [][Next]_vars

(* Many steps at once, on an empty queue: xs are inserted, h of them removed (giving r1), ys inserted, *)
(* and everything removed (giving r2).                                                                *)
AllItems(xs) == {<<xs[i], i>> : i \in 1..Len(xs)}
Sorted(r) == \A i \in 1..(Len(r) - 1) : r[i][1] >= r[i + 1][1]
Bulk(xs, h, ys, r1, r2) ==
  LET all == xs \o ys
      ids == {r1[i][2] : i \in 1..Len(r1)} \cup {r2[i][2] : i \in 1..Len(r2)}
  IN /\ Len(r1) = h /\ Len(r1) + Len(r2) = Len(all) /\ Cardinality(ids) = Len(all)
     /\ \A i \in 1..Len(r1) : r1[i][2] \in 1..Len(xs) /\ r1[i][1] = xs[r1[i][2]]
     /\ \A i \in 1..Len(r2) : r2[i][2] \in 1..Len(all) /\ r2[i][1] = all[r2[i][2]]
     /\ Sorted(r1) /\ Sorted(r2)
     /\ h > 0 => \A i \in 1..Len(r2) : r2[i][2] > Len(xs) \/ r2[i][1] <= r1[h][1]
(* The same as single steps.                                                                         *)
RECURSIVE Removals(_, _)
Removals(b, k) == IF k = 0 THEN {<<>>}
                  ELSE UNION {{<<x>> \o r : r \in Removals(b \ {x}, k - 1)} : x \in Greatest(b)}
BulkSteps(xs, h, ys) ==
  UNION {LET b == (AllItems(xs) \ {r1[i] : i \in 1..h}) \cup (AllItems(xs \o ys) \ AllItems(xs))
         IN {<<r1, r2>> : r2 \in Removals(b, Cardinality(b))} : r1 \in Removals(AllItems(xs), h)}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
BulkRight == \A xs \in Seqs(Prios, 2), ys \in Seqs(Prios, 1) : \A h \in 0..Len(xs) :
  LET items == AllItems(xs \o ys)  n == Cardinality(items)
  IN BulkSteps(xs, h, ys) = {<<r1, r2>> \in [1..h -> items] \X [1..(n - h) -> items] : Bulk(xs, h, ys, r1, r2)}
=============================================================================
