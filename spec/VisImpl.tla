------------------------------ MODULE VisImpl ------------------------------
(* The visibility test of the code - closed outward cones at both ends and no blocking edge - against  *)
(* its meaning (Plane!Sees), on every pair of disjoint obstacles on a small grid, the first a triangle *)
(* or quadrilateral in clockwise order, the second a point, a segment or a triangle; and the in_cone    *)
(* form used for points. Mode "ok" is the code; "open" takes the cones as open.                         *)
EXTENDS Plane
CONSTANTS K, First, Second, Mode
VARIABLES ps, q
Grid == (0..K) \X (0..K)
Simple(p) == /\ \A i, j \in 1..Len(p) : i # j => p[i] # p[j]
             /\ \A i, j \in 1..Len(p) : i # j =>
                  LET a == p[i]  b == Next1(p, i)  c == p[j]  d == Next1(p, j)
                  IN /\ ~Crosses(a, b, c, d) /\ ~OnOpen(a, b, c) /\ ~OnOpen(a, b, d)
RECURSIVE Area(_, _)
Area(p, i) == IF i > Len(p) THEN 0 ELSE Cross(<<0, 0>>, p[i], Next1(p, i)) + Area(p, i + 1)
Least(p) == \A i \in 1..Len(p) : p[1][1] < p[i][1] \/ (p[1][1] = p[i][1] /\ p[1][2] <= p[i][2])
Polys(n) == IF n = 1 THEN {<<a>> : a \in Grid}
            ELSE IF n = 2 THEN {p \in Grid \X Grid : p[1] # p[2]}
            ELSE {p \in [1..n -> Grid] : Least(p) /\ Area(p, 1) < 0 /\ Simple(p)}
DisjointPolys(p, r) ==
  /\ \A i \in 1..Len(p), j \in 1..Len(r) :
       LET a == p[i]  b == Next1(p, i)  c == r[j]  d == Next1(r, j)
       IN /\ a # c /\ ~Crosses(a, b, c, d) /\ ~OnOpen(a, b, c) /\ ~OnOpen(c, d, a)
  /\ ~Inside2(p, Twice(r[1])) /\ ~Inside2(r, Twice(p[1]))
Firsts == UNION {Polys(n) : n \in First}
Seconds == UNION {Polys(n) : n \in Second}
Init == ps = <<>> /\ q = <<0, 0>>
Next == \/ ps = <<>> /\ q' = q /\ \E p \in Firsts : ps' = <<p>>
        \/ Len(ps) = 1 /\ \E r \in Seconds : DisjointPolys(ps[1], r) /\ ps' = <<ps[1], r>> /\ q' \in Grid
Spec == Init /\ [][Next]_<<ps, q>>
InCone(a0, a1, a2, b) ==
  LET m == Turn(b, a0, a1)  p == Turn(b, a1, a2)  z == IF Mode = "open" THEN 1 ELSE 0
  IN IF Turn(a0, a1, a2) > 0 THEN m >= z /\ p >= z ELSE m >= z \/ p >= z
ConeAt(k, i, b) == InCone(Prev1(ps[k], i), ps[k][i], Next1(ps[k], i), b)
Clear(S, a, b) == \A k \in S : \A i \in 1..Len(ps[k]) : ~Blocks(a, b, ps[k][i], Next1(ps[k], i))
Nb(k, i, m, j) == k = m /\ ps[m][j] \in {Next1(ps[k], i), Prev1(ps[k], i)}
VertexPairs == (Len(ps) = 2 /\ q = <<0, 0>>) =>
  \A k, m \in 1..2 : \A i \in 1..Len(ps[k]), j \in 1..Len(ps[m]) :
    LET a == ps[k][i]  b == ps[m][j] IN
    a # b => ((Nb(k, i, m, j) \/ (ConeAt(k, i, b) /\ ConeAt(m, j, a) /\ Clear(1..2, a, b)))
              <=> (Nb(k, i, m, j) \/ Sees(ps, 1..2, a, b)))
PointToVertex == Len(ps) = 2 =>
  \A ignored \in 0..2 : LET S == (1..2) \ {ignored} IN
    \A k \in S : \A i \in 1..Len(ps[k]) :
      q # ps[k][i] => ((ConeAt(k, i, q) /\ Clear(S, q, ps[k][i])) <=> Sees(ps, S, q, ps[k][i]))
=============================================================================
