------------------------------ MODULE GenRamp ------------------------------
(* Random RampTable histories (simulation mode).                                                     *)
EXTENDS RampTable, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
RSeq == [i \in 1..R(0..4) |-> R(Vals)]
RKey == IF rows # <<>> /\ R(1..8) > 1 THEN R(0..(Len(rows) - 1)) ELSE R(0..(Len(rows) + 1))
RandOp(k) ==
  CASE k \in {"finish", "clear", "views"} -> [ev |-> k]
    [] k = "push" -> [ev |-> k, x |-> R(Vals)]
    [] k = "entry" -> [ev |-> k, xs |-> RSeq, how |-> R({"copy", "clone", "extend", "blind"})]
    [] k = "many" -> [ev |-> k, given |-> [i \in 1..R(1..3) |-> RSeq]]
    [] k = "key" -> [ev |-> k, i |-> RKey, how |-> R({"values", "mut", "range", "index", "indexmut"})]
    [] k = "write" -> LET i == RKey IN
         [ev |-> k, i |-> i, x |-> R(Vals), how |-> R({"iter", "values", "index", "all"}),
          j |-> IF IsKey(i) /\ rows[i + 1] # <<>> /\ R(1..6) > 1 THEN R(0..(Len(rows[i + 1]) - 1)) ELSE R(0..2)]
    [] k = "eq" -> IF R(1..2) = 1 THEN [ev |-> k, orows |-> rows, otail |-> tail]
                   ELSE IF rows # <<>> /\ R(1..2) = 1
                   THEN [ev |-> k, orows |-> SubSeq(rows, 1, Len(rows) - 1), otail |-> rows[Len(rows)] \o tail]
                   ELSE [ev |-> k, orows |-> rows, otail |-> RSeq]
Weight(k) == CASE k \in {"push", "finish"} -> 4 [] k \in {"entry", "views"} -> 3 [] k \in {"clear", "many"} -> 1 [] OTHER -> 2
GInit == Init /\ hist = <<>>
GNext == \E w \in UNION {{<<k, i>> : i \in 1..Weight(k)} : k \in Known} :
           LET op == RandOp(w[1]) IN
             Len(Eff(op).rows) <= MaxKeys /\ Step(op) /\ hist' = Append(hist, op)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) # Depth \/ PrintT(ToJson(hist))
=============================================================================
