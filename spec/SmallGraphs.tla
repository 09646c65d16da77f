----------------------------- MODULE SmallGraphs -----------------------------
(* The graphs on which the code-shaped specifications are checked: every multigraph with up to N       *)
(* vertices and M edges, target lists in any order. Phase 1 of each of these specifications builds the *)
(* graph (Grow), phase 2 runs the algorithm on it.                                                     *)
EXTENDS Graph, IOUtils
CONSTANTS N, M
(* Which known-bad design to check instead of the right one.                                            *)
Mut == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE "none"
VARIABLES g, at
GrowInit == g \in {[i \in 1..n |-> <<>>] : n \in 0..N} /\ at = 1
Grow == /\ at > 0 /\ NumEdges(g) < M
        /\ \E v \in at..Len(g), t \in Verts(g) : g' = [g EXCEPT ![v] = Append(@, t)] /\ at' = v
Grown == at > 0 /\ at' = 0 /\ UNCHANGED g    \* the graph is fixed from here on
=============================================================================
