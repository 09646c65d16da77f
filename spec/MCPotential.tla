----------------------------- MODULE MCPotential -----------------------------
(* The certificates by which big graphs are judged (IsPotential, IsPotentialPath, IsMatrixPotential...)  *)
(* say the same as the definitions (IsLeastPath, IsPredecessors), on every small graph and matrix.       *)
EXTENDS Weights
CONSTANTS N, M, W, P
VARIABLES g, at, w
GInit == g = [i \in 1..N |-> <<>>] /\ at = 1 /\ w \in {m \in [1..N -> [1..N -> 0..W]] : \A i, j \in 1..N : j > i => m[i][j] = 0}
RECURSIVE Size(_, _)
Size(s, i) == IF i = 0 THEN 0 ELSE Len(s[i]) + Size(s, i - 1)
GNext == /\ Size(g, N) < M /\ \A i, j \in 1..N : w[i][j] = 0
         /\ \E v \in at..N, t \in 0..(N - 1), x \in 0..W : g' = [g EXCEPT ![v] = Append(@, <<t, x>>)] /\ at' = v
         /\ UNCHANGED w
GSpec == GInit /\ [][GNext]_<<g, at, w>>
Paths == UNION {[1..k -> 0..(N - 1)] : k \in 1..P}
Least(d) == [v \in 1..N |-> IF d[v] = Inf THEN -1 ELSE d[v]]
Pots == [1..N -> -1..(2 * W)]
GraphSame ==
  LET E == AdjEdges(g)  d == Dist(N, E, 0)  pot == Least(d) IN
  /\ IsPotential(g, 0, pot)
  /\ \A p \in Pots : IsPotential(g, 0, p) => \A v \in 1..N : d[v] # Inf => p[v] # -1 /\ p[v] <= d[v]
  /\ \A t \in 0..(N - 1), p \in Paths : IsPotentialPath(g, pot, 0, t, TRUE, p) <=> IsLeastPath(N, E, 0, t, TRUE, p)
  /\ \A t \in 0..(N - 1) : IsPotentialPath(g, pot, 0, t, FALSE, <<>>) <=> IsLeastPath(N, E, 0, t, FALSE, <<>>)
Lower == [i \in 1..N |-> [j \in 1..i |-> w[i][j]]]
MatrixSame ==
  LET E == MatrixEdges(Lower)  d == Dist(N, E, 0)  pot == Least(d) IN
  /\ IsMatrixPotential(Lower, 0, pot)
  /\ \A p \in Pots : IsMatrixPotential(Lower, 0, p) => \A v \in 1..N : d[v] # Inf => p[v] # -1 /\ p[v] <= d[v]
  /\ \A t \in 0..(N - 1), dad \in [1..N -> -1..(N - 1)] :
       IsMatrixPotentialPath(Lower, pot, 0, t, dad) <=> IsPredecessors(N, E, 0, t, dad)
=============================================================================
