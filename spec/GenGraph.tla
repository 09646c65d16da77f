------------------------------ MODULE GenGraph ------------------------------
(* Every multigraph with up to N vertices and M edges, each vertex's target list in any order.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES g,    \* target lists
          at    \* vertex that may still get edges (lists are filled vertex by vertex)
N == atoi(IOEnv.VERTS)
M == atoi(IOEnv.EDGES)
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)) + Size(Tail(s))
GInit == /\ g \in {[i \in 1..n |-> <<>>] : n \in 0..N} /\ at = 1
GNext == /\ Size(g) < M
         /\ \E v \in at..Len(g), t \in 0..(Len(g) - 1) : g' = [g EXCEPT ![v] = Append(@, t)] /\ at' = v
GSpec == GInit /\ [][GNext]_<<g, at>>
Emit == PrintT(ToJson(g))
=============================================================================
