------------------------------ MODULE HeapImpl ------------------------------
(* The implicit binary heap of priority_queue.rs, one comparison-and-swap per step, refining PQ.      *)
(* Descend = "greater": move the greater child up (the code). "left": prefer the left child whenever  *)
(* it is greater than the parent (the original, defective code; a design mutant).                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Prios, MaxIns, Descend
VARIABLES a,       \* the array, of <<priority, identity>>
          pc,      \* "idle", "up", "down"
          i,       \* position (0-based) of the item that moves
          count, removed,
          out      \* the item on its way out of a removal
vars == <<a, pc, i, count, removed, out>>

At(k) == a[k + 1]
Pr(k) == a[k + 1][1]
Swap(s, x, y) == [s EXCEPT ![x + 1] = s[y + 1], ![y + 1] = s[x + 1]]
Parent(k) == (k - 1) \div 2

Init == a = <<>> /\ pc = "idle" /\ i = 0 /\ count = 0 /\ removed = <<>> /\ out = <<>>
Insert(p) ==
  /\ pc = "idle" /\ count < MaxIns
  /\ a' = Append(a, <<p, count + 1>>) /\ i' = Len(a) /\ pc' = "up" /\ count' = count + 1
  /\ removed' = <<>> /\ UNCHANGED out
Up == /\ pc = "up"
      /\ IF i > 0 /\ Pr(Parent(i)) < Pr(i)
         THEN a' = Swap(a, Parent(i), i) /\ i' = Parent(i) /\ UNCHANGED <<pc, count, removed, out>>
         ELSE pc' = "idle" /\ i' = 0 /\ UNCHANGED <<a, count, removed, out>>
RemoveEmpty == pc = "idle" /\ a = <<>> /\ removed' = <<>> /\ UNCHANGED <<a, pc, i, count, out>>
Remove == /\ pc = "idle" /\ a # <<>>
          /\ LET s == Swap(a, 0, Len(a) - 1) IN a' = SubSeq(s, 1, Len(s) - 1) /\ out' = a[1]
          /\ pc' = "down" /\ i' = 0 /\ UNCHANGED <<count, removed>>
Down == /\ pc = "down"
        /\ LET lt == 2 * i + 1  rt == 2 * i + 2
               canL == lt < Len(a) /\ Pr(i) < Pr(lt)
               rBig == rt < Len(a) /\ Pr(lt) < Pr(rt)
               canR == rt < Len(a) /\ Pr(i) < Pr(rt)
               go(k) == a' = Swap(a, i, k) /\ i' = k /\ UNCHANGED <<pc, count, removed, out>>
           IN IF canL /\ (Descend = "left" \/ ~rBig) THEN go(lt)
              ELSE IF canR THEN go(rt)
              ELSE pc' = "idle" /\ i' = 0 /\ removed' = out /\ out' = <<>> /\ UNCHANGED <<a, count>>
Clear == pc = "idle" /\ a' = <<>> /\ removed' = <<>> /\ UNCHANGED <<pc, i, count, out>>
Next == (\E p \in Prios : Insert(p)) \/ Up \/ RemoveEmpty \/ Remove \/ Down \/ Clear
Spec == Init /\ [][Next]_vars

HeapOrdered == pc = "idle" => \A k \in 1..(Len(a) - 1) : Pr(Parent(k)) >= Pr(k)
Elems == {a[k] : k \in 1..Len(a)}
NoLoss == Cardinality(Elems) = Len(a)
(* An item leaves the abstract queue when its removal returns; an inserted one is in it at once.      *)
Abs == INSTANCE PQ WITH bag <- Elems \cup (IF pc = "down" THEN {out} ELSE {})
Refines == Abs!Spec
=============================================================================
