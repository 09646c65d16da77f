----------------------------- MODULE GraphDefs -----------------------------
(* Checks the operators of Graph.tla against each other on every small multigraph: the efficient        *)
(* formulations used on traces agree with the definitions.                                             *)
EXTENDS GraphBig
CONSTANTS N, M
VARIABLES g, at
Init == g \in {[i \in 1..n |-> <<>>] : n \in 0..N} /\ at = 1
Next == /\ NumEdges(g) < M
        /\ \E v \in at..Len(g), t \in Verts(g) : g' = [g EXCEPT ![v] = Append(@, t)] /\ at' = v
Spec == Init /\ [][Next]_<<g, at>>

CycleDefs == Acyclic(g) <=> ~HasCycle(g)
PreorderIsPaths == Acyclic(g) => \A v \in Verts(g) :
   LET p == Preorder(g, v, 1000) IN p[2] /\ p[1] = PathsFrom(g, v, Len(g))
PreorderPrefix == \A v \in Verts(g) : LET p == Preorder(g, v, 4) IN
   IF p[2] THEN p[1] = PathsFrom(g, v, 8) ELSE Len(p[1]) = 4 /\ p[1] = SubSeq(PathsFrom(g, v, 5), 1, 4)
TransposeTwice == \A v \in 1..Len(g) : \A t \in Verts(g) :
   Count(Transposed(Transposed(g))[v], t) = Count(g[v], t)
   /\ Count(Transposed(g)[t + 1], v - 1) = Count(g[v], t)
BuiltBack == LET b == Built(EdgeSeq(g)) IN
   /\ Len(b) <= Len(g) /\ \A v \in 1..Len(b) : b[v] = g[v]
   /\ \A v \in (Len(b) + 1)..Len(g) : g[v] = <<>> /\ InDegree(g, v - 1) = 0
(* A layering exists exactly for acyclic graphs, and is unique and lowest.                             *)
Layerings == {L \in [1..Len(g) -> 0..Len(g)] : IsLayering(g, L)}
LayeringDef == /\ Acyclic(g) <=> Layerings # {}
               /\ \A L \in Layerings : PointsDown(g, L)
               /\ \A L \in Layerings : \A K \in [1..Len(g) -> 0..Len(g)] :
                    PointsDown(g, K) => \A v \in 1..Len(g) : L[v] <= K[v]
OrderDef == Acyclic(g) <=> \E k \in 0..Len(g) : \E o \in [1..k -> Verts(g)] : IsOrder(g, o)
(* Interior vertices that are not on an isolated cycle are covered exactly once by the chains.          *)
InnerOf(c) == {c[i] : i \in 2..(Len(c) - 1)}
ChainsDef == LET cs == ChainsOf(g)  I == Interior(g) IN
   /\ \A k \in 1..Len(cs) : /\ Len(cs[k]) >= 3 /\ cs[k][1] \notin I /\ cs[k][Len(cs[k])] \notin I
                            /\ InnerOf(cs[k]) \subseteq I
                            /\ \A i \in 1..(Len(cs[k]) - 1) : <<cs[k][i], cs[k][i + 1]>> \in EdgeSet(g)
   /\ \A v \in I : LET n == Cardinality({k \in 1..Len(cs) : v \in InnerOf(cs[k])}) IN
        IF ReachFrom(Sym(g), {v}) \subseteq I THEN n = 0 ELSE n = 1

(* The formulations with certificates agree with the definitions.                                       *)
BigTransposed == NoParallel(g) => \A h \in {g, Transposed(g), Transposed(Transposed(g)), [v \in 1..Len(g) |-> RevSeq(Transposed(g)[v])]} :
   IsTransposed(g, h) <=> h = Transposed(g)
BigInterior == NoParallel(g) => InteriorBy(g, Transposed(g)) = Interior(g)
BigBuilt == LET es == EdgeSeq(g)  r == RevSeq(es)  b == Built(es) IN
   /\ IsBuilt(es, b) /\ (g # b => ~IsBuilt(es, g))
   /\ \A v \in 1..Len(b) : \A k \in 1..Len(b) : b[v] # <<>> /\ v # k =>
        ~IsBuilt(es, [b EXCEPT ![v] = Tail(@), ![k] = Append(@, b[v][1])]) \/ [b EXCEPT ![v] = Tail(@), ![k] = Append(@, b[v][1])] = b
   /\ (\A v \in 1..Len(g) : Len(g[v]) <= 1) => IsBuilt(r, Built(r))
BigOrder == \A k \in 0..Len(g) : \A o \in [1..k -> Verts(g)] :
   (\E pos \in [1..Len(g) -> 0..Len(g)] : IsOrderAt(g, o, pos)) <=> IsOrder(g, o)
RowsOf(of) == LET m == MaxOf({0} \cup SetOf(of)) IN
   [r \in 1..m |-> SelectSeq([i \in 1..Len(of) |-> i - 1], LAMBDA v : of[v + 1] = r)]
BigComponents == \A of \in [1..Len(g) -> 0..Len(g)] :
   (\E up \in [1..Len(g) -> Verts(g)], depth \in [1..Len(g) -> 0..(Len(g) - 1)] : IsComponentsBy(g, RowsOf(of), of, up, depth))
     <=> IsComponents(g, RowsOf(of))
BigLayers == \A L \in Layerings : Acyclic(g)
BigCycle == (\E k \in 1..Len(g) : \E c \in [1..k -> Verts(g)] : IsCycle(g, c)) <=> ~Acyclic(g)
(* The certificates of the preorder exist, and prove nothing else.                                       *)
RECURSIVE PreCert(_, _, _, _)
PreCert(v, n, c, pending) ==   \* pending: triples <<par, pos, up of the parent>>; the next one first
  IF Len(c) = n \/ pending = <<>> THEN c
  ELSE LET h == Head(pending)  i == Len(c) + 1
           V(a) == IF a = 0 THEN v ELSE c[a][4]
           t == Out(g, V(h[1]))[h[2]]
           u == IF h[2] < Len(Out(g, V(h[1]))) THEN i ELSE h[3]
       IN PreCert(v, n, Append(c, <<h[1], h[2], u, t>>), [k \in 1..Len(Out(g, t)) |-> <<i, k, u>>] \o Tail(pending))
BigPreorder == \A v \in Verts(g) : \A n \in 0..6 :
   LET p == Preorder(g, v, n)
       c == PreCert(v, n, <<>>, [k \in 1..Len(Out(g, v)) |-> <<0, k, 0>>])
       Get(k) == [i \in 1..Len(c) |-> c[i][k]]
   IN /\ Get(4) = p[1]
      /\ IsPreorderBy(g, v, p[1], p[2] /\ Len(p[1]) < n, n, Get(1), Get(2), Get(3))
BigPreorderOnly == \A v \in Verts(g) : \A m \in 0..2 : \A n \in m..3 :
   \A par \in [1..m -> 0..1], pos \in [1..m -> 1..2], up \in [1..m -> 0..2], out \in [1..m -> Verts(g)], all \in BOOLEAN :
     IsPreorderBy(g, v, out, all, n, par, pos, up) =>
       LET p == Preorder(g, v, n) IN out = p[1] /\ (all <=> p[2] /\ Len(p[1]) < n)
=============================================================================
