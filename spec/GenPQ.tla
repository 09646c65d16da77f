------------------------------- MODULE GenPQ -------------------------------
(* Every history of insertions, removals and clears up to a bound (breadth-first), or random ones.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
P == atoi(IOEnv.PRIOS)
Ops == {[ev |-> "insert", x |-> p] : p \in 1..P} \cup {[ev |-> "remove"]}
Ins(h) == Len(SelectSeq(h, LAMBDA e : e.ev = "insert"))
GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E op \in Ops :
           /\ (op.ev = "remove" => 2 * Ins(hist) > Len(hist))   \* not from an empty queue
           /\ hist' = Append(hist, op)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) < Depth \/ PrintT(ToJson(hist))
=============================================================================
