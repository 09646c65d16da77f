----------------------------- MODULE TracePlane -----------------------------
(* Validates recorded results of the planar functions (C19, C20, C21, C25).                           *)
EXTENDS Plane, Weights, TraceLib
VARIABLE l
E0 == Trace[l]
TInit == l = 1
IsEvent(n) == l <= Len(Trace) /\ E0.ev = n /\ l' = l + 1

Vertex(ps, ix) == ps[ix[1]][ix[2]]
AreNeighbours(ps, a, b) == a[1] = b[1] /\ LET n == Len(ps[a[1]]) IN (b[2] - a[2]) % n \in {1 % n, (n - 1) % n}
All(ps) == 1..Len(ps)

(* C19. With a list of pairs, only these are looked at.                                               *)
Config(e, ix) ==
  LET ps == e.polys  n == Len(ix)  from == TLCEval([k \in 1..(Len(ps) + 1) |-> Offset(ps, k)]) IN
  /\ e.n = n /\ e.np = Len(ps)
  /\ e.pts = FlatP(ps)
  /\ e.start = from
  /\ e.next = [i \in 1..n |-> from[ix[i][1]] + (ix[i][2] % Len(ps[ix[i][1]]))]
  /\ e.prev = [i \in 1..n |-> from[ix[i][1]] + ((ix[i][2] - 2) % Len(ps[ix[i][1]]))]
Seen(ps, ix, i, j, x) ==
  LET a == Vertex(ps, ix[i])  b == Vertex(ps, ix[j])
  IN IF i # j /\ (AreNeighbours(ps, ix[i], ix[j]) \/ Sees(ps, All(ps), a, b)) THEN IsMilli(x, DistSq(a, b)) ELSE x = 0
Vis ==
  /\ IsEvent("vis") /\ ~E0.panic
  /\ TRUE = LET ps == E0.polys  ix == TLCEval(Index(ps))  n == Len(ix) IN
     /\ Config(E0, ix)
     /\ IF Has(E0, "some") THEN \A k \in 1..Len(E0.some) : LET x == E0.some[k] IN
             E0.m[k][1] = E0.m[k][2] /\ Seen(ps, ix, x[1] + 1, x[2] + 1, E0.m[k][1])
        ELSE /\ Len(E0.m) = n
             /\ \A i \in 1..n : \A j \in 1..i : E0.m[i][j] = E0.m[j][i] /\ Seen(ps, ix, i, j, E0.m[i][j])

(* C20. The first obstacle that contains p, counted from 0, or -1.                                    *)
FirstHit(ps, p) == LET S == {k \in All(ps) : InConvex(ps[k], p)} IN IF S = {} THEN -1 ELSE MinOf(S) - 1
Hit == IsEvent("hit") /\ ~E0.panic /\ E0.hit = FirstHit(E0.polys, E0.p)
Others(ps, k) == All(ps) \ {k + 1}
PtVis ==
  /\ IsEvent("ptvis") /\ ~E0.panic
  /\ LET ps == E0.polys  ix == Index(ps)  n == Len(ix)
         k == IF E0.pp = -2 THEN FirstHit(ps, E0.p) ELSE E0.pp
         S == Others(ps, k)
     IN /\ Len(E0.v) = n + 2 /\ E0.v[n + 1] = 0 /\ E0.v[n + 2] = 0
        /\ \A i \in 1..n : LET a == Vertex(ps, ix[i]) IN
             IF ix[i][1] \in S /\ Sees(ps, S, E0.p, a) THEN IsMilli(E0.v[i], DistSq(E0.p, a)) ELSE E0.v[i] = 0
SeesDirectly(e) == SeesEdges(e.polys, All(e.polys) \ {e.pp + 1, e.qp + 1}, e.p, e.q)
Direct == IsEvent("direct") /\ ~E0.panic /\ E0.sees = SeesDirectly(E0)

(* C21. The vertices are 0..n-1, then q, then p.                                                       *)
RouteEdges(e) ==
  LET ps == e.polys  ix == Index(ps)  n == Len(ix)
      SP == Others(ps, e.pp)  SQ == Others(ps, e.qp)
      V(i) == Vertex(ps, ix[i])
      vv == {x \in (1..n) \X (1..n) : x[1] > x[2] /\ (AreNeighbours(ps, ix[x[1]], ix[x[2]]) \/ Sees(ps, All(ps), V(x[1]), V(x[2])))}
      half == {<<x[1] - 1, x[2] - 1, Milli(DistSq(V(x[1]), V(x[2])))>> : x \in vv}
              \cup {<<n, i - 1, Milli(DistSq(e.q, V(i)))>> : i \in {i \in 1..n : ix[i][1] \in SQ /\ Sees(ps, SQ, e.q, V(i))}}
              \cup {<<n + 1, i - 1, Milli(DistSq(e.p, V(i)))>> : i \in {i \in 1..n : ix[i][1] \in SP /\ Sees(ps, SP, e.p, V(i))}}
  IN {x \in half : x[3] # 0} \cup {<<x[2], x[1], x[3]>> : x \in {y \in half : y[3] # 0}}
Route ==
  /\ IsEvent("route") /\ ~E0.panic
  /\ LET n == Len(Index(E0.polys))  dad == E0.dad IN
     /\ Len(dad) = n + 2 /\ dad[n + 2] = -1
     /\ IF SeesDirectly(E0) THEN dad[n + 1] = n + 1
        ELSE LET E == RouteEdges(E0)
                 d == Dist(n + 2, E, n + 1)[n + 1]
                 w == Back(dad, n, n + 3)
             IN IF d = Inf THEN \A i \in 1..Len(w) : w[i] # n + 1
                ELSE /\ Len(w) <= n + 2 /\ w[Len(w)] = n + 1
                     /\ LET x == WalkWeight(E, Rev(w)) IN x # Inf /\ x <= d + 2 * Len(w) + 2 * n

(* C25 *)
A == E0.a
Pt(i) == <<A[i], A[i + 1]>>
Bool(x) == IF x THEN 1 ELSE 0
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
In(x, y, z) == x <= y /\ y <= z
(* The integer nearest to x / d, halves away from zero; d is even or one.                              *)
RoundAway(x, d) == IF d = 1 THEN x ELSE IF x >= 0 THEN (x + d \div 2) \div d ELSE -((-x + d \div 2) \div d)
(* The same for a number that differs from x / d by a little: by u, times the least amount there is.   *)
RoundBy(x, d, u) == IF d > 1 /\ (x % d) * 2 = d /\ ((x > 0 /\ u < 0) \/ (x < 0 /\ u > 0))
                    THEN RoundAway(x, d) - (IF x > 0 THEN 1 ELSE -1) ELSE RoundAway(x, d)
Rounded(s, d, u) == [i \in 1..Len(s) |-> RoundBy(s[i], d, u)]
(* The sign of the number which x stands for (see the mappings that "den" names in the harness).         *)
SignIn(x, d) == IF d = -1 THEN 1 ELSE IF d = -3 THEN -1 ELSE IF x < 0 THEN -1 ELSE 1
Member(x, y, b) == In(A[b], x, A[b + 2]) /\ In(A[b + 1], y, A[b + 3])
CosTab == <<1000, 966, 866, 707, 500, 259, 0, -259, -500, -707, -866, -966, -1000, -966, -866, -707, -500, -259, 0, 259, 500, 707, 866, 966>>
Value(f) ==
  CASE f = "area2" -> <<Cross(Pt(1), Pt(3), Pt(5))>>
    [] f = "wind" -> <<Turn(Pt(1), Pt(3), Pt(5))>>
    [] f = "between" -> <<Bool(OnOpen(Pt(1), Pt(3), Pt(5)))>>
    [] f = "inside" -> <<Bool(Member(A[1], A[2], 3))>>
    [] f = "overlap" -> <<Bool(Max2(A[1], A[5]) <= Min2(A[3], A[7]) /\ Max2(A[2], A[6]) <= Min2(A[4], A[8]))>>
    [] f = "contains" -> <<Bool(Member(A[5], A[6], 1) /\ Member(A[7], A[8], 1))>>
    [] f = "expandp" -> <<Min2(A[1], A[5]), Min2(A[2], A[6]), Max2(A[3], A[5]), Max2(A[4], A[6])>>
    [] f = "expandb" -> <<Min2(A[1], A[5]), Min2(A[2], A[6]), Max2(A[3], A[7]), Max2(A[4], A[8])>>
    [] f = "clip" -> <<Max2(A[1], A[5]), Max2(A[2], A[6]), Min2(A[3], A[7]), Min2(A[4], A[8])>>
    [] f \in {"round", "pf2p", "bf2b"} -> Rounded(A, E0.den, E0.u)
    [] f \in {"p2pf", "b2bf"} -> A
    [] f = "vec" -> <<A[1] + A[3], A[2] + A[4], A[1] - A[3], A[2] - A[4],
                      A[1] * A[5], A[2] * A[5], A[1] * A[5], A[2] * A[5], A[1], A[2]>>
    [] f = "order" -> <<Min2(A[1], A[2]), Max2(A[1], A[2]), SignIn(A[3], E0.den),
                        Sign(A[1] - A[2]), Bool(In(A[1], A[2], A[3])), Min2(A[1], A[2]), Max2(A[1], A[2])>>
    [] f = "arith" -> <<Min2(A[1], A[2]), Max2(A[1], A[2]), A[1] + A[2], IF A[1] < 0 THEN -1 ELSE 1,
                        Sign(A[1] - A[2]), Bool(In(A[1], A[2], A[3])), A[1] * A[1], Min2(A[1], A[2]), Max2(A[1], A[2])>>
    [] f = "ivec" -> <<A[1] + A[3], A[2] + A[4], A[1] - A[3], A[2] - A[4], A[1] * A[5], A[2] * A[5], A[1], A[2], A[1], A[2],
                       1, Bool(A[1] = A[3] /\ A[2] = A[4]), A[2] * A[2]>>
    [] f = "units" -> <<RoundAway(72 * A[1], E0.den), 72 * A[1], A[1], 1000 * A[1], 1000 * A[1]>>
    [] f = "approx" -> LET Abs(x) == IF x < 0 THEN -x ELSE x IN
                       <<Bool(Abs(A[1] - A[2]) < A[5]), Bool(DistSq(Pt(1), Pt(3)) < A[5] * A[5])>>
    [] f = "angle" -> <<CosTab[(A[1] % 24) + 1], CosTab[((A[1] - 6) % 24) + 1]>>
IsLen == LET d0 == A[1] * A[1] + A[2] * A[2]  d1 == DistSq(Pt(3), Pt(5)) IN
         E0.r[1] = d0 /\ E0.r[2] = d1 /\ IsMilli(E0.r[3], d0) /\ IsMilli(E0.r[4], d1)
Planar == /\ l <= Len(Trace) /\ Has(E0, "f") /\ E0.ev = E0.f /\ l' = l + 1 /\ ~E0.panic
          /\ IF E0.f = "len" THEN IsLen ELSE E0.r = Value(E0.f)

TNext == Vis \/ Hit \/ PtVis \/ Direct \/ Route \/ Planar
TSpec == TInit /\ [][TNext]_l
=============================================================================
