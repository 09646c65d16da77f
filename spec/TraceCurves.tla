---------------------------- MODULE TraceCurves -----------------------------
(* Validates recorded results of the spline router (C23), the cubic solver (C24) and the elliptic wedge    *)
(* (C28).                                                                                               *)
EXTENDS Plane, Cubic, TraceLib
VARIABLE l
E0 == Trace[l]
TInit == l = 1
IsEvent(n) == l <= Len(Trace) /\ E0.ev = n /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
X(u, v) == u[1] * v[2] - u[2] * v[1]
Dt(u, v) == u[1] * v[1] + u[2] * v[2]
L1(u) == Abs(u[1]) + Abs(u[2])

(* C24: roots in parts of 10000.                                                                         *)
NearRoot(x, f, tol) == Abs(x * f[1] - 10000 * f[2]) <= tol * Abs(f[1])
Solve ==
  /\ IsEvent("solve") /\ ~E0.panic
  /\ E0.co = Expand(E0.lead, E0.fs, E0.quad) /\ NoRealRoot(E0.quad)        \* the driver is right
  /\ LET f == E0.fs IN
     IF E0.lead = 0 THEN E0.n = 4
     ELSE IF Simple(f) THEN E0.n = Len(f) /\ \A i \in 1..Len(f) : \E k \in 1..Len(f) : NearRoot(E0.roots[k], f[i], 3)
     ELSE E0.n <= 3 /\ \A k \in 1..E0.n : \E i \in 1..Len(f) : NearRoot(E0.roots[k], f[i], 100)

(* C23: the output is in hundredths, rounded; the template and the barriers in whole numbers.              *)
H(a) == <<100 * a[1], 100 * a[2]>>
Pieces(o) == (Len(o) - 1) \div 3
Joint(o, j) == o[3 * j + 1]                     \* 0..Pieces
(* The template index of each joint, in order; <<>> if they are no subsequence. The points of a template   *)
(* are distinct.                                                                                         *)
RECURSIVE Embed(_, _, _, _)
Embed(o, p, j, i) == IF j > Pieces(o) THEN <<>>
                     ELSE IF i > Len(p) THEN <<0>>
                     ELSE IF Joint(o, j) = H(p[i]) THEN <<i>> \o Embed(o, p, j + 1, i + 1) ELSE Embed(o, p, j, i + 1)
(* u, rounded, has the direction of v, up to an error of e in each coordinate of u and f in those of v; a     *)
(* zero vector has every direction.                                                                      *)
Along(u, v, e, f) == LET t == e * L1(v) + f * L1(u) + 2 * e * f IN Abs(X(u, v)) <= t /\ Dt(u, v) >= -t
Bound == 15000
Small(o) == \A i \in 1..Len(o) : Abs(o[i][1]) <= Bound /\ Abs(o[i][2]) <= Bound
Tangents(o, p, m, evs) ==
  LET k == Pieces(o)
      In(j) == Minus(o[3 * j + 1], o[3 * j])          \* arriving at joint j
      Out(j) == Minus(o[3 * j + 2], o[3 * j + 1])
  IN /\ Along(Out(0), evs[1], 1, 0)
     /\ Along(In(k), evs[2], 1, 0)
     /\ \A j \in 1..(k - 1) :
          LET i == m[j + 1]
              d1 == Minus(p[i], p[i - 1])  d2 == Minus(p[i + 1], p[i])
          IN /\ Along(In(j), Out(j), 1, 1)
             \* The direction is between the two that the template has there.
             /\ \A u \in {In(j), Out(j)} : \A d \in {d1, d2} : Dt(u, d) >= -L1(d)
             /\ \A u \in {In(j), Out(j)} : LET s == Sign(X(d1, d2)) IN
                  s # 0 => X(d1, u) * s >= -L1(d1) /\ X(u, d2) * s >= -L1(d2)
(* Point t = k/32 of a piece, times 32768, divided by 32768.                                             *)
Bez(w0, w1, w2, w3, k) == LET s == 32 - k IN
   (s * s * s * w0 + 3 * s * s * k * w1 + 3 * s * k * k * w2 + k * k * k * w3) \div 32768
(* Template p does not meet the interior of barrier a-b; the two are not on one line.                       *)
Avoids(p, a, b) == /\ a # b
                   /\ \A i \in 1..Len(p) : ~OnOpen(a, b, p[i])
                   /\ \A i \in 1..(Len(p) - 1) : /\ ~Crosses(p[i], p[i + 1], a, b)
                                                 /\ ~(Cross(p[i], p[i + 1], a) = 0 /\ Cross(p[i], p[i + 1], b) = 0)
(* A piece certainly crosses barrier a-b (in hundredths): between two samples it changes sides by more than  *)
(* rounding explains, while it stays between the ends of the barrier, and not close to them.               *)
CrossesBarrier(o, j, a, b) ==
  LET d == Minus(b, a)  w == [i \in 0..3 |-> o[3 * j + 1 + i]]
      \* Along the barrier and across it, in units of hundredths times 1/64 of the barrier's length.
      Al(q) == (Dt(Minus(q, a), d)) \div 64
      Ac(q) == (X(d, Minus(q, a))) \div 64
      P(k) == <<Bez(w[0][1], w[1][1], w[2][1], w[3][1], k), Bez(w[0][2], w[1][2], w[2][2], w[3][2], k)>>
      len == Dt(d, d) \div 64
      tol == (5 * L1(d)) \div 64 + 2
      stepmax == CHOOSE x \in {Abs(Al(w[i]) - Al(w[i - 1])) : i \in 1..3} : \A i \in 1..3 : x >= Abs(Al(w[i]) - Al(w[i - 1]))
      slack == (3 * stepmax) \div 64 + (15 * L1(d)) \div 64 + 3
      side == [k \in 0..32 |-> LET x == Ac(P(k)) IN IF x > tol THEN 1 ELSE IF x < -tol THEN -1 ELSE 0]
      safe == [k \in 0..32 |-> Al(P(k)) > slack /\ Al(P(k)) < len - slack]
  IN \E k \in 0..31 : side[k] * side[k + 1] < 0 /\ safe[k] /\ safe[k + 1]
Spline ==
  /\ IsEvent("spline") /\ ~E0.panic /\ E0.ok
  /\ LET o == E0.out  p == E0.path IN
     /\ Len(o) >= 4 /\ Len(o) % 3 = 1
     /\ o[1] = H(p[1]) /\ o[Len(o)] = H(p[Len(p)])
     /\ LET m == Embed(o, p, 0, 1) IN
        /\ \A i \in 1..Len(m) : m[i] # 0
        /\ Small(o) => /\ Tangents(o, p, m, E0.evs)
                       /\ \A i \in 1..Len(E0.bars) : LET a == E0.bars[i][1]  b == E0.bars[i][2] IN
                            Avoids(p, a, b) => \A j \in 0..(Pieces(o) - 1) : ~CrossesBarrier(o, j, H(a), H(b))

(* C28: points relative to the centre, scaled to the unit circle, in parts of 10000; angles in parts of 24.  *)
CosTab == <<1000, 966, 866, 707, 500, 259, 0, -259, -500, -707, -866, -966, -1000, -966, -866, -707, -500, -259, 0, 259, 500, 707, 866, 966>>
Cos(i) == CosTab[(i % 24) + 1]
Sin(i) == Cos(i - 6)
(* Point u of the unit circle is where the ellipse with axes ax has direction i.                           *)
InDirection(u, ax, i) == LET s == ax[1] + ax[2]
                             x == u[1] * ax[1] * Sin(i) - u[2] * ax[2] * Cos(i)
                         IN Abs(x) <= 8000 * s /\ u[1] * ax[1] * Cos(i) + u[2] * ax[2] * Sin(i) > 0
OnCircle(u) == Abs(Dt(u, u) - 100000000) <= 210000
Straight(a, b, c, d) == \A q \in {b, c} : LET e == Minus(d, a)  f == Minus(q, a) IN
                          Abs(X(e, f)) <= 3 * L1(e) /\ Dt(e, f) >= -3 * L1(e) /\ Dt(e, f) <= Dt(e, e) + 3 * L1(e)
Quarter(w, k, i) == (CASE k = 1 -> 27 * w[0][i] + 27 * w[1][i] + 9 * w[2][i] + w[3][i]
                       [] k = 2 -> 8 * w[0][i] + 24 * w[1][i] + 24 * w[2][i] + 8 * w[3][i]
                       [] k = 3 -> w[0][i] + 9 * w[1][i] + 27 * w[2][i] + 27 * w[3][i]) \div 64
(* What does not depend on the directions: two straight pieces and an arc around the centre.               *)
WedgeShape(o) ==
  LET n == Len(o)  k == Pieces(o)  O == <<0, 0>> IN
  /\ n >= 10 /\ n % 3 = 1
  /\ o[1] = O /\ o[n] = O
  /\ Straight(o[1], o[2], o[3], o[4]) /\ Straight(o[n - 3], o[n - 2], o[n - 1], o[n])
  /\ \A j \in 1..(k - 2) :
       LET w == [i \in 0..3 |-> o[3 * j + 1 + i]] IN
       /\ OnCircle(w[0]) /\ OnCircle(w[3])
       /\ \A q \in 1..3 : OnCircle(<<Quarter(w, q, 1), Quarter(w, q, 2)>>)
       /\ X(w[0], w[3]) >= -40000 /\ Dt(w[0], w[3]) >= -40000
       \* The quarter points are in order, too.
       /\ \A q \in 1..3 : LET m == <<Quarter(w, q, 1), Quarter(w, q, 2)>> IN X(w[0], m) >= -40000 /\ X(m, w[3]) >= -40000
(* How many pieces of the arc pass the axis direction R, counter-clockwise.                                *)
Passes(o, R) == Cardinality({j \in 1..(Pieces(o) - 2) : LET a == Joint(o, j)  b == Joint(o, j + 1) IN
                               X(R, a) < 0 /\ X(R, b) >= 0 /\ Dt(R, a) + Dt(R, b) > 0})
Wedge ==
  /\ IsEvent("wedge") /\ ~E0.panic /\ E0.used /\ E0.calls
  /\ LET o == E0.out  n == Len(o)  ax == E0.ax
         l1 == E0.ang[1]  l2 == E0.ang[2]
         want == IF l2 - l1 = 24 THEN 24 ELSE (l2 - l1) % 24
     IN /\ WedgeShape(o)
        /\ InDirection(o[4], ax, l1) /\ InDirection(o[n - 3], ax, l2)
        \* Each axis direction is passed as often as it should be.
        /\ \A d \in {0, 6, 12, 18} :
             (d - l1) % 24 # 0 /\ (d - l2) % 24 # 0 =>
               Passes(o, <<Cos(d) \div 1000, Sin(d) \div 1000>>) = (IF (d - l1) % 24 < want THEN 1 ELSE 0)

(* The same with the angles given by whole vectors d[1], d[2] that have these directions; less than a turn   *)
(* from the one to the other, or, if whole, exactly a turn.                                              *)
SameDir(u, v) == X(u, v) = 0 /\ Dt(u, v) > 0
(* R comes strictly after u and before v, counter-clockwise.                                             *)
Within(u, R, v) == IF SameDir(u, v) THEN FALSE
                   ELSE IF X(u, v) > 0 THEN X(u, R) > 0 /\ X(R, v) > 0
                   ELSE IF X(u, v) = 0 THEN X(u, R) > 0
                   ELSE X(u, R) > 0 \/ X(R, v) > 0 \/ (X(u, R) = 0 /\ Dt(u, R) < 0) \/ (X(R, v) = 0 /\ Dt(R, v) < 0)
HasDirection(u, ax, d) ==
  /\ Abs(u[1] * ax[1] * d[2] - u[2] * ax[2] * d[1]) <= 3 * (ax[1] * Abs(d[2]) + ax[2] * Abs(d[1]))
  /\ u[1] * ax[1] * d[1] + u[2] * ax[2] * d[2] > 0
WedgeDir ==
  /\ IsEvent("wedgedir") /\ ~E0.panic /\ E0.used /\ E0.calls
  /\ LET o == E0.out  n == Len(o)  d == E0.dirs  ax == E0.ax IN
     /\ (E0.whole => SameDir(d[1], d[2]))
     /\ WedgeShape(o)
     /\ HasDirection(o[4], ax, d[1]) /\ HasDirection(o[n - 3], ax, d[2])
     /\ \A R \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>} :
          ~SameDir(R, d[1]) /\ ~SameDir(R, d[2]) =>
             Passes(o, R) = (IF E0.whole \/ Within(d[1], R, d[2]) THEN 1 ELSE 0)
TNext == Solve \/ Spline \/ Wedge \/ WedgeDir
TSpec == TInit /\ [][TNext]_l
=============================================================================
