------------------------------- MODULE Graph -------------------------------
(* What the graph functions mean, stated on the graph alone. A graph is the sequence of the target    *)
(* lists of its vertices; vertices are numbered from 0 (vertex v is at position v+1).                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Verts(g) == 0..(Len(g) - 1)
Out(g, v) == g[v + 1]
(* All the sequences of a sequence in one, by halves (a sequence may be very long).                     *)
RECURSIVE FlatPart(_, _, _)
FlatPart(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                      ELSE LET m == (a + b) \div 2 IN FlatPart(ss, a, m) \o FlatPart(ss, m + 1, b)
FlatG(ss) == LET t == TLCEval(ss) IN FlatPart(t, 1, Len(t))
(* All edges in order, as <<from, to>>.                                                               *)
EdgeSeq(g) == FlatG([i \in 1..Len(g) |-> [j \in 1..Len(g[i]) |-> <<i - 1, g[i][j]>>]])
EdgeSet(g) == LET s == EdgeSeq(g) IN {s[i] : i \in 1..Len(s)}
WellFormed(g) == \A i \in 1..Len(g) : \A j \in 1..Len(g[i]) : g[i][j] \in Verts(g)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
NumEdges(g) == Len(FlatG(g))
InDegree(g, v) == Count(FlatG(g), v)
NonIsolated(g) == SetOf(FlatG(EdgeSeq(g)))    \* all ends of edges
Incr(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
MaxOf(S) == FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, CHOOSE x \in S : TRUE, S)

-----------------------------------------------------------------------------
(* C08. The graph described by a list of additions, each a walk v[1] -> v[2] -> ...                   *)
Walks(ops) == FlatG([k \in 1..Len(ops) |-> LET w == ops[k].v IN [i \in 1..(Len(w) - 1) |-> <<w[i], w[i + 1]>>]])
Built(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET n == 1 + MaxOf(UNION {{es[i][1], es[i][2]} : i \in 1..Len(es)})
       IN [v \in 1..n |-> LET s == SelectSeq(es, LAMBDA e : e[1] = v - 1) IN [i \in 1..Len(s) |-> s[i][2]]]

(* C09 *)
Transposed(g) == [v \in 1..Len(g) |-> LET s == SelectSeq(EdgeSeq(g), LAMBDA e : e[2] = v - 1)
                                      IN [i \in 1..Len(s) |-> s[i][1]]]

(* C11. Depth-first preorder with a pending list; at most n vertices. Result: <<vertices, ended>>.    *)
RECURSIVE PreFrom(_, _, _, _)
PreFrom(g, pending, out, n) ==
  IF Len(out) = n THEN <<out, FALSE>>
  ELSE IF pending = <<>> THEN <<out, TRUE>>
  ELSE PreFrom(g, Out(g, Head(pending)) \o Tail(pending), Append(out, Head(pending)), n)
Preorder(g, start, n) == PreFrom(g, Out(g, start), <<>>, n)
(* The same, from its meaning: non-empty edge paths (as sequences of edge numbers) in lexicographic   *)
(* order, each contributing its last vertex. For acyclic graphs with paths up to length d.            *)
RECURSIVE PathsFrom(_, _, _)
PathsFrom(g, v, d) ==   \* sequence of last vertices
  IF d = 0 THEN <<>>
  ELSE FlatG([j \in 1..Len(Out(g, v)) |-> <<Out(g, v)[j]>> \o PathsFrom(g, Out(g, v)[j], d - 1)])

(* Cycles: peel off vertices all of whose targets are gone.                                           *)
RECURSIVE Peel(_, _)
Peel(g, S) == LET gone == {v \in S : SetOf(Out(g, v)) \cap S = {}}
              IN IF gone = {} THEN S ELSE Peel(g, S \ gone)
Acyclic(g) == Peel(g, Verts(g)) = {}
(* The definition of a cycle, for small graphs: some vertex reaches itself.                            *)
RECURSIVE ReachFrom(_, _)
ReachFrom(E, S) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}}
                   IN IF T = S THEN S ELSE ReachFrom(E, T)
Succ(g, v) == ReachFrom(EdgeSet(g), SetOf(Out(g, v)))
HasCycle(g) == \E v \in Verts(g) : v \in Succ(g, v)

(* C12. An order lists every vertex with an edge once, edges pointing forward.                        *)
IsOrder(g, o) == /\ NoDup(o) /\ SetOf(o) = NonIsolated(g)
                 /\ LET pos == [v \in SetOf(o) |-> CHOOSE i \in 1..Len(o) : o[i] = v]
                    IN \A e \in EdgeSet(g) : pos[e[1]] < pos[e[2]]
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* C13. Lowest layering.                                                                              *)
IsLayering(g, L) == /\ Len(L) = Len(g)
                    /\ \A v \in Verts(g) : L[v + 1] = IF Out(g, v) = <<>> THEN 0
                                                       ELSE 1 + MaxOf({L[t + 1] : t \in SetOf(Out(g, v))})
PointsDown(g, L) == \A e \in EdgeSet(g) : L[e[1] + 1] > L[e[2] + 1]

(* C14. The end of the chain of virtual vertices (numbered n and up) that starts with edge to t, and  *)
(* the virtual vertices on it.                                                                        *)
RECURSIVE Follow(_, _, _, _)
Follow(p, n, t, seen) ==
  IF t < n \/ t \in SetOf(seen) \/ t >= Len(p) \/ Len(p[t + 1]) # 1 THEN <<t, seen>>
  ELSE Follow(p, n, p[t + 1][1], Append(seen, t))
IsProper(g, L, p) ==
  LET n == Len(g)
      ch == [i \in 1..n |-> [j \in 1..Len(p[i]) |-> Follow(p, n, p[i][j], <<>>)]]
      virt == FlatG([i \in 1..n |-> FlatG([j \in 1..Len(p[i]) |-> ch[i][j][2]])])
  IN /\ Len(p) >= n /\ WellFormed(p)
     \* every virtual vertex has one in-edge and one out-edge, and lies on exactly one chain
     /\ \A v \in n..(Len(p) - 1) : Len(p[v + 1]) = 1 /\ InDegree(p, v) = 1
     /\ Len(virt) = Len(p) - n /\ NoDup(virt)
     /\ \A i \in 1..n :
          \* the chains that leave i are its original edges
          /\ Len(p[i]) = Len(g[i])
          /\ \A t \in SetOf(g[i]) : Cardinality({j \in 1..Len(p[i]) : ch[i][j][1] = t}) = Count(g[i], t)
          \* of the right length: one layer per step
          /\ \A j \in 1..Len(p[i]) : /\ ch[i][j][1] \in Verts(g)
                                     /\ Len(ch[i][j][2]) = L[i] - L[ch[i][j][1] + 1] - 1

(* C15. Weakly connected components of the vertices that have an edge.                                *)
Sym(g) == LET E == EdgeSet(g) IN E \cup {<<e[2], e[1]>> : e \in E}
IsComponents(g, rows) ==
  /\ NoDup(FlatG(rows)) /\ SetOf(FlatG(rows)) = NonIsolated(g)
  /\ \A r \in 1..Len(rows) : /\ rows[r] # <<>> /\ Incr(rows[r])
                             /\ SetOf(rows[r]) = ReachFrom(Sym(g), {rows[r][1]})

(* C16. Interior vertices have exactly one in-edge and one out-edge, and no self loop.                *)
Interior(g) == {v \in Verts(g) : Len(Out(g, v)) = 1 /\ InDegree(g, v) = 1 /\ Out(g, v)[1] # v}
RECURSIVE ChainFrom(_, _, _)
ChainFrom(g, I, w) == LET v == w[Len(w)] IN IF v \notin I THEN w ELSE ChainFrom(g, I, Append(w, Out(g, v)[1]))
ChainsWith(g, I) ==
  LET starts == SelectSeq(EdgeSeq(g), LAMBDA e : e[1] \notin I /\ e[2] \in I)
  IN [k \in 1..Len(starts) |-> ChainFrom(g, I, starts[k])]
ChainsOf(g) == ChainsWith(g, Interior(g))
=============================================================================
