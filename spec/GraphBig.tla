------------------------------ MODULE GraphBig ------------------------------
(* The meaning of the graph functions once more, for graphs with very many vertices and no parallel    *)
(* edges. What Graph.tla computes by comparing everything with everything is here confirmed with the   *)
(* help of a certificate (in-neighbours, positions, spanning trees), recorded by the driver and checked *)
(* completely. GraphDefs checks that the two formulations agree.                                       *)
EXTENDS Graph
NoParallel(g) == Cardinality(EdgeSet(g)) = NumEdges(g)
(* in is the transposed graph of g.                                                                     *)
IsTransposed(g, in) ==
  /\ Len(in) = Len(g) /\ NumEdges(in) = NumEdges(g) /\ WellFormed(in)
  /\ \A i \in 1..Len(in) : Incr(in[i])
  /\ {<<e[2], e[1]>> : e \in EdgeSet(in)} = EdgeSet(g)
(* g has exactly the edges es; given in increasing order of their origins, or in decreasing order with   *)
(* one edge per origin.                                                                                *)
IsBuilt(es, g) ==
  LET n == Len(es)
      up == \A i \in 1..(n - 1) : es[i][1] <= es[i + 1][1]
      down == \A i \in 1..(n - 1) : es[i][1] > es[i + 1][1]
  IN /\ up \/ down
     /\ EdgeSeq(g) = IF up THEN es ELSE [i \in 1..n |-> es[n + 1 - i]]
     /\ IF n = 0 THEN g = <<>> ELSE Len(g) = 1 + MaxOf({MaxOf(UNION {{es[1][1], es[n][1]}}), MaxOf({0} \cup {e[2] : e \in SetOf(es)})})
(* pos: the position of every vertex in order o.                                                        *)
IsOrderAt(g, o, pos) ==
  /\ Len(pos) = Len(g) /\ \A i \in 1..Len(o) : o[i] \in Verts(g) /\ pos[o[i] + 1] = i
  /\ SetOf(o) = NonIsolated(g)
  /\ \A e \in EdgeSet(g) : pos[e[1] + 1] < pos[e[2] + 1]
(* of: the row of every vertex; up: a neighbour that is nearer (by depth) to the first vertex of the row. *)
IsComponentsBy(g, rows, of, up, depth) ==
  LET E == EdgeSet(g) IN
  /\ Len(of) = Len(g) /\ Len(up) = Len(g) /\ Len(depth) = Len(g)
  /\ \A r \in 1..Len(rows) : /\ rows[r] # <<>> /\ Incr(rows[r])
                             /\ \A i \in 1..Len(rows[r]) : rows[r][i] \in Verts(g) /\ of[rows[r][i] + 1] = r
  /\ SetOf(FlatG(rows)) = NonIsolated(g)
  /\ \A e \in E : of[e[1] + 1] = of[e[2] + 1]
  /\ \A r \in 1..Len(rows) : \A i \in 2..Len(rows[r]) :
       LET v == rows[r][i]  u == up[v + 1]
       IN u \in Verts(g) /\ depth[u + 1] >= 0 /\ depth[u + 1] < depth[v + 1] /\ (<<u, v>> \in E \/ <<v, u>> \in E)
(* The interior vertices of chains, given the in-neighbours.                                            *)
InteriorBy(g, in) == {v \in Verts(g) : Len(Out(g, v)) = 1 /\ Len(in[v + 1]) = 1 /\ Out(g, v)[1] # v}
(* The same items as often.                                                                             *)
SameItems(s, t) == /\ Len(s) = Len(t)
                   /\ IF NoDup(s) THEN SetOf(s) = SetOf(t) ELSE \A x \in SetOf(s) : Count(s, x) = Count(t, x)
(* For every virtual vertex v, own[v + 1] is the edge <<i, j>> on whose chain it lies (counted from 1), and  *)
(* dep[v + 1] its place there; last[i][j] is the last virtual vertex of that chain, or -1.                *)
IsProperBy(g, L, p, own, dep, last) ==
  LET n == Len(g)  m == Len(p)  V == n..(m - 1)
      into == SelectSeq(FlatG(p), LAMBDA t : t >= n)
      End(i, j) == IF last[i][j] = -1 THEN p[i][j] ELSE p[last[i][j] + 1][1]
      Steps(i, j) == IF last[i][j] = -1 THEN 1 ELSE dep[last[i][j] + 1] + 1
  IN /\ m >= n /\ WellFormed(p) /\ Len(own) = m /\ Len(dep) = m /\ Len(last) = n
     /\ \A v \in V : Len(p[v + 1]) = 1
     \* exactly one edge into each virtual vertex, from its predecessor on the chain
     /\ Len(into) = m - n /\ SetOf(into) = V
     /\ \A i \in 1..n : \A j \in 1..Len(p[i]) : p[i][j] >= n => own[p[i][j] + 1] = <<i, j>> /\ dep[p[i][j] + 1] = 1
     /\ \A v \in V : LET u == p[v + 1][1] IN u >= n => own[u + 1] = own[v + 1] /\ dep[u + 1] = dep[v + 1] + 1
     /\ \A i \in 1..n :
          /\ Len(p[i]) = Len(g[i]) /\ Len(last[i]) = Len(p[i])
          /\ \A j \in 1..Len(p[i]) :
               /\ IF p[i][j] < n THEN last[i][j] = -1
                  ELSE last[i][j] \in V /\ own[last[i][j] + 1] = <<i, j>> /\ End(i, j) < n
               /\ L[i] - L[End(i, j) + 1] = Steps(i, j)
          /\ SameItems([j \in 1..Len(p[i]) |-> End(i, j)], g[i])
(* Every vertex of c leads to the next one, the last to the first.                                      *)
IsCycle(g, c) ==
  LET n == Len(c) IN
  /\ n >= 1
  /\ \A i \in 1..n : c[i] \in Verts(g)
  /\ \A i \in 1..n : LET o == Out(g, c[i])  t == c[(i % n) + 1] IN \E k \in 1..Len(o) : o[k] = t
(* out are the first vertices in depth-first preorder from start, at most n of them, and whether that is  *)
(* all. Item i is target number pos[i] of item par[i] (of start for 0); up[i] is the nearest of i, its     *)
(* parent, its parent's parent ... that is not the last target of its parent, or 0.                      *)
IsPreorderBy(g, start, out, all, n, par, pos, up) ==
  LET m == Len(out)
      Targets(i) == Out(g, IF i = 0 THEN start ELSE out[i])
  IN /\ m <= n /\ Len(par) = m /\ Len(pos) = m /\ Len(up) = m
     /\ \A i \in 1..m :
          /\ par[i] \in 0..(i - 1)
          /\ pos[i] \in 1..Len(Targets(par[i]))
          /\ out[i] = Targets(par[i])[pos[i]]
          /\ up[i] = IF pos[i] < Len(Targets(par[i])) THEN i ELSE IF par[i] = 0 THEN 0 ELSE up[par[i]]
     /\ m > 0 => par[1] = 0 /\ pos[1] = 1
     /\ \A i \in 1..(m - 1) :
          IF Targets(i) # <<>> THEN par[i + 1] = i /\ pos[i + 1] = 1
          ELSE up[i] # 0 /\ par[i + 1] = par[up[i]] /\ pos[i + 1] = pos[up[i]] + 1
     /\ all <=> m < n
     /\ all => Targets(m) = <<>> /\ (m = 0 \/ up[m] = 0)
=============================================================================
