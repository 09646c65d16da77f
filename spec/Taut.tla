-------------------------------- MODULE Taut --------------------------------
(* The shortest path inside a simple polygon (C22): the only path from a to b inside it that bends only *)
(* at vertices and wraps around each of them (a closed simple polygon has one geodesic between two      *)
(* points, and what is locally shortest is shortest).                                                   *)
EXTENDS Plane
InPolygon2(p, m) == Inside2(p, m) \/ OnBoundary2(p, m)
(* Vertices of p on the open segment a-b, nearest to a first.                                           *)
RECURSIVE ByDist(_, _)
ByDist(a, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : DistSq(a, x) <= DistSq(a, y)
                                         IN <<x>> \o ByDist(a, S \ {x})
Contacts(p, a, b) == ByDist(a, {p[i] : i \in {i \in 1..Len(p) : OnOpen(a, b, p[i])}})
(* The segment a-b stays inside the closed polygon p: it crosses no edge, and the middle of each piece   *)
(* between two contacts is inside.                                                                      *)
StaysIn(p, a, b) == /\ \A i \in 1..Len(p) : ~Crosses(a, b, p[i], Next1(p, i))
                    /\ LET c == <<a>> \o Contacts(p, a, b) \o <<b>>
                       IN \A k \in 1..(Len(c) - 1) : InPolygon2(p, Mid2(c[k], c[k + 1]))
(* The path a, v, b cannot be shortened at vertex v = p[i]: the outside of the polygon fills the notch    *)
(* that it leaves. Or it goes straight on.                                                              *)
Wraps(p, a, i, b) == LET v == p[i]  s == Turn(a, v, b) IN
  IF s = 0 THEN OnOpen(a, b, v)
  ELSE \A n \in {Prev1(p, i), Next1(p, i)} : Turn(a, v, n) * s >= 0 /\ Turn(v, b, n) * s >= 0
IsTaut(p, a, b, path) ==
  /\ Len(path) >= 2 /\ path[1] = a /\ path[Len(path)] = b
  /\ \A k \in 1..(Len(path) - 1) : StaysIn(p, path[k], path[k + 1])
  /\ \A k \in 2..(Len(path) - 1) : \E i \in 1..Len(p) : p[i] = path[k] /\ Wraps(p, path[k - 1], i, path[k + 1])
GeneralPosition(s) == \A i, j, k \in 1..Len(s) : i < j /\ j < k => Turn(s[i], s[j], s[k]) # 0
=============================================================================
