----------------------------- MODULE GenWeighted -----------------------------
(* Every weighted multigraph with N vertices and up to M edges, in every order of the target lists.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES g, at
N == atoi(IOEnv.VERTS)
M == atoi(IOEnv.EDGES)
W == atoi(IOEnv.WEIGHT)
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)) + Size(Tail(s))
GInit == g = [i \in 1..N |-> <<>>] /\ at = 1
GNext == /\ Size(g) < M
         /\ \E v \in at..N, t \in 0..(N - 1), w \in 0..W : g' = [g EXCEPT ![v] = Append(@, <<t, w>>)] /\ at' = v
GSpec == GInit /\ [][GNext]_<<g, at>>
Emit == PrintT(ToJson(g))
=============================================================================
