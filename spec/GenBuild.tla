------------------------------ MODULE GenBuild ------------------------------
(* Random sequences of graph builder calls.                                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Op(how) == [how |-> how, v |-> [i \in 1..(IF how = "edge" THEN 2 ELSE R(0..4)) |-> R(0..4)]]
GInit == hist = <<>>
GNext == \E how \in {"edge", "path", "chain"} : hist' = Append(hist, Op(how))
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) # Depth \/ PrintT(ToJson(hist))
=============================================================================
