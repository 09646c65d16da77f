------------------------------ MODULE Weights ------------------------------
(* Least weights of paths (C17, C18, C21). Edges are triples <<from, to, weight>>, weights are        *)
(* non-negative, vertices are numbered from 0; Inf stands for "unreachable".                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Inf == 2147483647
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
(* In: per vertex, the edges that lead to it.                                                         *)
RelaxAll(n, In, d) ==
  [v \in 1..n |-> MinOf({d[v]} \cup {d[e[1] + 1] + e[3] : e \in {x \in In[v] : d[x[1] + 1] # Inf}})]
RECURSIVE Fix(_, _, _)
Fix(n, In, d) == LET r == RelaxAll(n, In, d) IN IF r = d THEN d ELSE Fix(n, In, r)
(* Least weight from s to every vertex.                                                               *)
Dist(n, E, s) == LET in == [v \in 1..n |-> {e \in E : e[2] = v - 1}] IN
                 Fix(n, TLCEval(in), [v \in 1..n |-> IF v = s + 1 THEN 0 ELSE Inf])
(* Weight of a walk, vertices in order; Inf if it is not along edges.                                 *)
StepWeight(E, u, v) == LET S == {e[3] : e \in {x \in E : x[1] = u /\ x[2] = v}} IN IF S = {} THEN Inf ELSE MinOf(S)
RECURSIVE WalkWeight(_, _)
WalkWeight(E, w) == IF Len(w) <= 1 THEN 0
                    ELSE LET a == StepWeight(E, w[1], w[2])  b == WalkWeight(E, Tail(w))
                         IN IF a = Inf \/ b = Inf THEN Inf ELSE a + b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

AdjEdges(adj) == UNION {{<<i - 1, adj[i][j][1], adj[i][j][2]>> : j \in 1..Len(adj[i])} : i \in 1..Len(adj)}
(* C17: is r (None as <<>>) a right answer?                                                           *)
IsLeastPath(n, E, s, t, found, path) ==
  LET d == Dist(n, E, s)[t + 1] IN
  /\ found = (d # Inf)
  /\ found => /\ Len(path) >= 1 /\ path[1] = t /\ path[Len(path)] = s
              /\ WalkWeight(E, Rev(path)) = d
              /\ s = t => path = <<s>>

(* C18: w is the lower triangle of a symmetric matrix, diagonal included; zero means no edge.         *)
MatrixEdges(w) == {<<i - 1, j - 1, IF i >= j THEN w[i][j] ELSE w[j][i]>> :
                     <<i, j>> \in {x \in (1..Len(w)) \X (1..Len(w)) :
                                     (IF x[1] >= x[2] THEN w[x[1]][x[2]] ELSE w[x[2]][x[1]]) # 0}}
(* The vertices met when following predecessors from v (at most n + 1 of them).                       *)
RECURSIVE Back(_, _, _)
Back(dad, v, k) == IF k = 0 \/ v < 0 \/ v >= Len(dad) THEN <<>> ELSE <<v>> \o Back(dad, dad[v + 1], k - 1)
IsPredecessors(n, E, s, t, dad) ==
  LET d == Dist(n, E, s)[t + 1]
      w == Back(dad, t, n + 1)
  IN /\ Len(dad) = n /\ dad[s + 1] = -1
     /\ IF d = Inf THEN \A i \in 1..Len(w) : w[i] # s
        ELSE Len(w) <= n /\ w[Len(w)] = s /\ WalkWeight(E, Rev(w)) = d

(* Big graphs (C17, C18) are judged by a certificate: pot[v + 1] is -1 for vertices out of reach and      *)
(* otherwise a lower bound of the weight of every walk from s to v. That it is one follows from these     *)
(* conditions by induction on walks (checked for small graphs in MCPotential); the walk that the code     *)
(* returns then is least if its weight equals the bound.                                                  *)
IsPotential(adj, s, pot) ==
  /\ Len(pot) = Len(adj) /\ pot[s + 1] = 0
  /\ \A u \in 1..Len(adj) : pot[u] # -1 =>
       \A j \in 1..Len(adj[u]) : LET v == adj[u][j][1] + 1 IN pot[v] # -1 /\ pot[v] <= pot[u] + adj[u][j][2]
(* path: from t back to s, each step along an edge exactly as heavy as the bounds differ.                 *)
IsPotentialPath(adj, pot, s, t, found, path) ==
  /\ found = (pot[t + 1] # -1)
  /\ found => /\ Len(path) >= 1 /\ path[1] = t /\ path[Len(path)] = s
              /\ \A i \in 1..Len(path) : path[i] \in 0..Len(adj) - 1 /\ pot[path[i] + 1] # -1
              /\ \A i \in 1..Len(path) - 1 :
                   LET u == path[i + 1] + 1  v == path[i] IN
                   \E j \in 1..Len(adj[u]) : adj[u][j][1] = v /\ adj[u][j][2] = pot[v + 1] - pot[u]
              /\ s = t => path = <<s>>
Cell(w, i, j) == IF i >= j THEN w[i][j] ELSE w[j][i]
IsMatrixPotential(w, s, pot) ==
  /\ Len(pot) = Len(w) /\ pot[s + 1] = 0
  /\ \A u \in 1..Len(w) : pot[u] # -1 =>
       \A v \in 1..Len(w) : Cell(w, u, v) # 0 => pot[v] # -1 /\ pot[v] <= pot[u] + Cell(w, u, v)
(* All the vertices met when following predecessors from v, at most k: cut in halves to keep the stack low. *)
RECURSIVE Follow(_, _, _)
Follow(dad, v, k) == IF k = 0 \/ v < 0 \/ v >= Len(dad) THEN <<>>
                     ELSE IF k = 1 THEN <<v>>
                     ELSE LET a == Follow(dad, v, k \div 2) IN
                          IF Len(a) < k \div 2 THEN a
                          ELSE a \o Follow(dad, dad[a[Len(a)] + 1], k - (k \div 2))
IsMatrixPotentialPath(w, pot, s, t, dad) ==
  /\ Len(dad) = Len(w) /\ dad[s + 1] = -1
  /\ LET p == Follow(dad, t, Len(w) + 1) IN
     IF pot[t + 1] = -1 THEN \A i \in 1..Len(p) : p[i] # s
     ELSE /\ Len(p) <= Len(w) /\ p[Len(p)] = s
          /\ \A i \in 1..Len(p) - 1 :
               LET u == p[i + 1] + 1  v == p[i] + 1 IN
               Cell(w, u, v) # 0 /\ pot[u] # -1 /\ pot[v] = pot[u] + Cell(w, u, v)
=============================================================================
