------------------------------- MODULE Plane -------------------------------
(* Exact planar geometry on integer points <<x, y>>, and what it means to see each other past a set of *)
(* obstacles (C19-C22, C25). An obstacle is the sequence of its vertices; obstacles are disjoint simple *)
(* polygons (or single points or segments).                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dot(a, b, c, d) == (b[1] - a[1]) * (d[1] - c[1]) + (b[2] - a[2]) * (d[2] - c[2])
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Turn(a, b, c) == Sign(Cross(a, b, c))
DistSq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
(* c lies on the open segment a-b.                                                                    *)
OnOpen(a, b, c) == Cross(a, b, c) = 0 /\ Dot(a, b, a, c) > 0 /\ Dot(b, a, b, c) > 0
(* The segments a-b and c-d cross in one interior point of both.                                       *)
Crosses(a, b, c, d) == Turn(a, b, c) * Turn(a, b, d) < 0 /\ Turn(c, d, a) * Turn(c, d, b) < 0
Next1(p, i) == p[(i % Len(p)) + 1]
Prev1(p, i) == p[((i + Len(p) - 2) % Len(p)) + 1]
(* Edge e of a polygon blocks the open segment a-b.                                                    *)
Blocks(a, b, c, d) == OnOpen(a, b, c) \/ OnOpen(a, b, d) \/ Crosses(a, b, c, d)
Twice(a) == <<2 * a[1], 2 * a[2]>>
Mid2(a, b) == <<a[1] + b[1], a[2] + b[2]>>       \* the middle, in doubled coordinates
(* m (in doubled coordinates) lies on the boundary of / strictly inside polygon p.                     *)
OnBoundary2(p, m) == \E i \in 1..Len(p) : LET c == Twice(p[i])  d == Twice(Next1(p, i))
                                          IN m = c \/ OnOpen(c, d, m)
Inside2(p, m) ==
  /\ Len(p) >= 3 /\ ~OnBoundary2(p, m)
  /\ Cardinality({i \in 1..Len(p) :
        LET c == Twice(p[i])  d == Twice(Next1(p, i))
        IN \/ c[2] <= m[2] /\ d[2] > m[2] /\ Turn(c, d, m) > 0
           \/ d[2] <= m[2] /\ c[2] > m[2] /\ Turn(d, c, m) > 0}) % 2 = 1
(* a and b see each other past the obstacles ps[k], k in S: the open segment meets no vertex of them,  *)
(* crosses no edge, and does not run through an interior.                                              *)
Sees(ps, S, a, b) ==
  \A k \in S : /\ \A i \in 1..Len(ps[k]) : ~Blocks(a, b, ps[k][i], Next1(ps[k], i))
               /\ ~Inside2(ps[k], Mid2(a, b))
(* The same without looking at interiors.                                                              *)
SeesEdges(ps, S, a, b) == \A k \in S : \A i \in 1..Len(ps[k]) : ~Blocks(a, b, ps[k][i], Next1(ps[k], i))
(* p is in the closed convex polygon given in clockwise order.                                         *)
InConvex(p, a) == \A i \in 1..Len(p) : Turn(p[i], Next1(p, i), a) <= 0

(* All vertices in order, each as <<polygon, position>>.                                               *)
RECURSIVE FlatPPart(_, _, _)
FlatPPart(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                       ELSE LET m == (a + b) \div 2 IN FlatPPart(ss, a, m) \o FlatPPart(ss, m + 1, b)
FlatP(ss) == LET t == TLCEval(ss) IN FlatPPart(t, 1, Len(t))
Index(ps) == FlatP([k \in 1..Len(ps) |-> [i \in 1..Len(ps[k]) |-> <<k, i>>]])
Offset(ps, k) == Len(FlatP(SubSeq(ps, 1, k - 1)))     \* vertices before polygon k

(* v is the length sqrt(d2), in thousandths, rounded (give or take one).                               *)
IsMilliNear(v, d2) == v >= 0 /\ (v = 0 => d2 = 0) /\ (IF v = 0 THEN 0 ELSE (v - 1) * (v - 1)) <= 1000000 * d2
                      /\ 1000000 * d2 <= (v + 1) * (v + 1)
(* The same for great lengths, with v = 1000 * w + r: v * v and 1000000 * d2, both without 1000000 * w * w *)
(* and in thousands, differ by 2 * v at most.                                                            *)
IsMilliFar(v, d2) == LET w == v \div 1000  r == v % 1000 IN
                     /\ v >= 0 /\ w <= 46000
                     /\ LET x == 2 * w * r + (r * r) \div 1000  e == d2 - w * w
                        IN e >= -1000000 /\ e <= 1000000 /\ x - 1000 * e <= 4 * w + 6 /\ 1000 * e - x <= 4 * w + 6
IsMilli(v, d2) == IF d2 <= 2000 THEN v <= 46000 /\ IsMilliNear(v, d2) ELSE IsMilliFar(v, d2)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, IF n < 46340 * 46340 - 1 /\ n > 1000000 THEN 46340 ELSE IF n > 1000 THEN 1001 ELSE n)
Milli(d2) == ISqrt(1000000 * d2)
=============================================================================
