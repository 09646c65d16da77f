--------------------------- MODULE RampTableImpl ---------------------------
(* The representation of RampTable: start offsets of the keys (index) and one flat value vector,     *)
(* with the hand-written pair iterator as a cursor that runs over it step by step. Refines RampTable *)
(* through the mapping below; the cursor's output is a prefix of the abstract list of pairs.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxKeys, MaxVals,
          Eager   \* TRUE: the cursor takes a value before it looks for its key, as the original code did
                  \* on unowned values (design mutant); FALSE: the code as it is
VARIABLES index, values,
          cur     \* the pair iterator: position in values/index, values left for the key, output, done
vars == <<index, values, cur>>

NoCur == [on |-> FALSE, pos |-> 0, key |-> 0, left |-> 0, out |-> <<>>, done |-> FALSE, failed |-> FALSE]
Row(k) == SubSeq(values, index[k] + 1, index[k + 1])       \* 1-based key
Rows == [k \in 1..(Len(index) - 1) |-> Row(k)]
TailVals == SubSeq(values, index[Len(index)] + 1, Len(values))
Abs == INSTANCE RampTable WITH rows <- Rows, tail <- TailVals

Init == index = <<0>> /\ values = <<>> /\ cur = NoCur
Idle == ~cur.on
Push == Idle /\ Len(values) < MaxVals /\ \E x \in Vals : values' = Append(values, x) /\ UNCHANGED <<index, cur>>
Finish == Idle /\ Len(index) <= MaxKeys /\ index' = Append(index, Len(values)) /\ UNCHANGED <<values, cur>>
Entry == Idle /\ Len(index) <= MaxKeys /\ Len(values) + 2 <= MaxVals
         /\ \E a, b \in Vals : values' = values \o <<a, b>> /\ index' = Append(index, Len(values) + 2)
         /\ UNCHANGED cur
Clear == Idle /\ index' = <<0>> /\ values' = <<>> /\ UNCHANGED cur
Write == Idle /\ \E k \in 1..(Len(index) - 1) : \E p \in (index[k] + 1)..index[k + 1], x \in Vals :
            values' = [values EXCEPT ![p] = x] /\ UNCHANGED <<index, cur>>

StartPairs == Idle /\ cur' = [NoCur EXCEPT !.on = TRUE] /\ UNCHANGED <<index, values>>
(* One call of next() of the pair iterator.                                                          *)
RECURSIVE Seek(_, _)
Seek(key, left) ==   \* the loop that skips keys without values; key = keys consumed so far
  IF left > 0 THEN [ok |-> TRUE, key |-> key, left |-> left]
  ELSE IF key >= Len(index) - 1 THEN [ok |-> FALSE, key |-> key, left |-> 0]
  ELSE Seek(key + 1, index[key + 2] - index[key + 1])
NextPair ==
  /\ cur.on /\ ~cur.done
  /\ UNCHANGED <<index, values>>
  /\ IF cur.pos >= Len(values) THEN cur' = [cur EXCEPT !.done = TRUE]
     ELSE LET s == Seek(cur.key, cur.left) IN
          IF s.ok THEN cur' = [cur EXCEPT !.pos = @ + 1, !.key = s.key, !.left = s.left - 1,
                                          !.out = Append(@, <<s.key - 1, values[cur.pos + 1]>>)]
          ELSE cur' = [cur EXCEPT !.done = TRUE, !.failed = Eager]
EndPairs == cur.done /\ cur' = NoCur /\ UNCHANGED <<index, values>>

Next == Push \/ Finish \/ Entry \/ Clear \/ Write \/ StartPairs \/ NextPair \/ EndPairs
Spec == Init /\ [][Next]_vars

Monotone == index[1] = 0 /\ \A i \in 1..(Len(index) - 1) : index[i] <= index[i + 1]
            /\ index[Len(index)] <= Len(values)
PairsOk == /\ ~cur.failed
           /\ cur.on => LET p == Abs!Pairs(Rows) IN
                 /\ Len(cur.out) <= Len(p) /\ cur.out = SubSeq(p, 1, Len(cur.out))
                 /\ (cur.done => cur.out = p)
Refines == Abs!Spec
=============================================================================
