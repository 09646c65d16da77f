----------------------------- MODULE RampTable -----------------------------
(* The abstract ramp table: a list of rows (one per finished key), and the values pushed since the   *)
(* last finished key, which no key owns yet.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Vals, MaxKeys, MaxVals
VARIABLES rows, tail
vars == <<rows, tail>>

RECURSIVE FlatPart(_, _, _)
FlatPart(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                      ELSE LET m == (a + b) \div 2 IN FlatPart(ss, a, m) \o FlatPart(ss, m + 1, b)
Flat(ss) == LET t == TLCEval(ss) IN FlatPart(t, 1, Len(t))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Known == {"push", "finish", "entry", "clear", "key", "write", "views", "eq", "many"}

Done(r, t, ret) == [rows |-> r, tail |-> t, ret |-> ret, panic |-> FALSE]
Fail == [rows |-> rows, tail |-> tail, ret |-> <<>>, panic |-> TRUE]
IsKey(k) == k < Len(rows)
B(x) == IF x THEN 1 ELSE 0

(* The effect of one operation: new rows, new unowned values, result.                                *)
Eff(e) ==
  CASE e.ev = "push" -> Done(rows, Append(tail, e.x), <<>>)
    [] e.ev = "finish" -> Done(Append(rows, tail), <<>>, <<Len(rows)>>)
    [] e.ev = "entry" -> Done(Append(rows, tail \o e.xs), <<>>, <<>>)
    [] e.ev = "many" -> Done(rows \o [e.given EXCEPT ![1] = tail \o @], <<>>, <<>>)   \* key after key
    [] e.ev = "clear" -> Done(<<>>, <<>>, <<>>)
    [] e.ev = "key" -> IF IsKey(e.i) THEN Done(rows, tail, rows[e.i + 1]) ELSE Fail
    [] e.ev = "write" -> IF IsKey(e.i) /\ e.j < Len(rows[e.i + 1])
                         THEN Done([rows EXCEPT ![e.i + 1][e.j + 1] = e.x], tail, <<>>) ELSE Fail
    [] e.ev = "views" -> Done(rows, tail, <<>>)
    [] e.ev = "eq" -> LET same == e.orows = rows /\ e.otail = tail IN Done(rows, tail, <<B(same), B(~same)>>)

(* What the views show.                                                                              *)
Start(r, k) == Len(Flat(SubSeq(r, 1, k)))            \* offset of key k (0-based)
Ranges(r) == [k \in 1..Len(r) |-> <<Start(r, k - 1), Start(r, k)>>]
(* The same, said of one key after the other.                                                        *)
AreRanges(g, r) == /\ Len(g) = Len(r)
                   /\ \A k \in 1..Len(r) : g[k] = LET s == IF k = 1 THEN 0 ELSE g[k - 1][2] IN <<s, s + Len(r[k])>>
Pairs(r) == Flat([k \in 1..Len(r) |-> [j \in 1..Len(r[k]) |-> <<k - 1, r[k][j]>>]])
(* Rows taken from the front and the back in turn.                                                   *)
Both(r) == [i \in 1..Len(r) |-> IF i % 2 = 1 THEN r[(i + 1) \div 2] ELSE r[Len(r) + 1 - (i \div 2)]]

(* Debug: a map of the non-empty entries.                                                            *)
RECURSIVE JoinPart(_, _, _)
JoinPart(ss, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                      ELSE LET m == (a + b) \div 2 IN JoinPart(ss, a, m) \o ", " \o JoinPart(ss, m + 1, b)
Join(ss) == LET t == TLCEval(ss) IN JoinPart(t, 1, Len(t))
List(r) == "[" \o Join([j \in 1..Len(r) |-> ToString(r[j])]) \o "]"
DebugText(r) ==
  LET ks == SelectSeq([k \in 1..Len(r) |-> k], LAMBDA k : r[k] # <<>>)
  IN "{" \o Join([i \in 1..Len(ks) |-> ToString(ks[i] - 1) \o ": " \o List(r[ks[i]])]) \o "}"

-----------------------------------------------------------------------------
Init == rows = <<>> /\ tail = <<>>
Room == Len(Flat(rows)) + Len(tail)
Step(e) == LET r == Eff(e) IN rows' = r.rows /\ tail' = r.tail
Push == Room < MaxVals /\ \E x \in Vals : Step([ev |-> "push", x |-> x])
Finish == Len(rows) < MaxKeys /\ Step([ev |-> "finish"])
Entry == Len(rows) < MaxKeys /\ \E a, b \in Vals : Room + 2 <= MaxVals /\ Step([ev |-> "entry", xs |-> <<a, b>>])
Clear == Step([ev |-> "clear"])
Write == \E k \in 1..Len(rows) : \E j \in 1..Len(rows[k]), x \in Vals : Step([ev |-> "write", i |-> k - 1, j |-> j - 1, x |-> x])
Next == Push \/ Finish \/ Entry \/ Clear \/ Write
Spec == Init /\ [][Next]_vars

TypeOK == rows \in Seq(Seq(Vals)) /\ tail \in Seq(Vals)
RECURSIVE FlatInd(_)
FlatInd(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatInd(Tail(ss))
RECURSIVE JoinInd(_, _)
JoinInd(ss, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o ", " \o JoinInd(ss, i + 1)
Inductive == /\ Flat(rows) = FlatInd(rows) /\ AreRanges(Ranges(rows), rows)
             /\ LET ss == [k \in 1..Len(rows) |-> ToString(rows[k])] IN Join(ss) = JoinInd(ss, 1)
ViewsAgree ==
  /\ Len(Pairs(rows)) = Len(Flat(rows))
  /\ [i \in 1..Len(Pairs(rows)) |-> Pairs(rows)[i][2]] = Flat(rows)
  /\ \A i, j \in 1..Len(Pairs(rows)) : i < j => Pairs(rows)[i][1] <= Pairs(rows)[j][1]
  /\ \A k \in 1..Len(rows) : SubSeq(Flat(rows), Start(rows, k - 1) + 1, Start(rows, k)) = rows[k]
(* A finished key keeps its values until the table is cleared or one is overwritten in place.        *)
Stable == [][\/ rows' = <<>>
             \/ Len(rows') >= Len(rows) /\ \A k \in 1..Len(rows) : Len(rows'[k]) = Len(rows[k])]_vars
=============================================================================
