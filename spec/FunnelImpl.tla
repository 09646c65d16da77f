----------------------------- MODULE FunnelImpl -----------------------------
(* Pshortestpath, shape of the code: the polygon is put in counter-clockwise order, cut into triangles  *)
(* ear by ear, the triangles from a to b are found by a search of their adjacency, and a funnel, kept    *)
(* as a deque with an apex, is drawn along them. Checked on every simple polygon with up to Nv vertices  *)
(* on a (K+1) x (K+1) grid, in either orientation, and all a, b inside, in general position; or, if From  *)
(* is not empty, on those of the winding Shapes below, three times as large (every Step-th a and b).       *)
(* Mode "ok" is the code; "far" splits the funnel always at the apex; "late" takes the tangent nearest to  *)
(* the apex on one side.                                                                                  *)
EXTENDS Taut
CONSTANTS K, Nv, Mode, From, Step
VARIABLES p, a, b, pc, rest, tris, strip, k, dq, apex, link
vars == <<p, a, b, pc, rest, tris, strip, k, dq, apex, link>>
Grid == (0..K) \X (0..K)
Lt(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])
Shapes ==
  << <<<<11, 6>>, <<8, 10>>, <<6, 8>>, <<6, 7>>, <<7, 6>>, <<8, 7>>, <<10, 5>>, <<7, 3>>, <<2, 5>>, <<3, 11>>, <<9, 13>>, <<14, 8>>>>,
     <<<<3, 11>>, <<4, 5>>, <<7, 13>>, <<10, 5>>, <<11, 11>>, <<14, 10>>, <<10, 2>>, <<7, 9>>, <<4, 2>>, <<0, 10>>>>,
     <<<<3, 13>>, <<4, 4>>, <<7, 14>>, <<9, 4>>, <<12, 14>>, <<15, 3>>, <<13, 3>>, <<12, 11>>, <<9, 2>>, <<7, 12>>, <<4, 2>>, <<1, 13>>>>,
     <<<<6, 7>>, <<2, 0>>, <<8, 0>>, <<11, 10>>, <<13, 12>>, <<14, 14>>, <<7, 12>>, <<3, 13>>, <<7, 10>>>>,
     <<<<6, 11>>, <<10, 9>>, <<10, 11>>, <<11, 1>>, <<8, 3>>, <<9, 1>>, <<2, 3>>, <<3, 10>>, <<7, 6>>, <<8, 6>>>>,
     <<<<0, 1>>, <<4, 4>>, <<7, 5>>, <<10, 4>>, <<13, 2>>, <<15, 0>>, <<7, 15>>>> >>
Init == /\ p \in (IF From = {} THEN {<<>>} ELSE {[j \in 1..Len(Shapes[i]) |-> <<3 * Shapes[i][j][1], 3 * Shapes[i][j][2]>>] : i \in From}) /\ a = <<0, 0>> /\ b = <<0, 0>> /\ pc = "grow" /\ rest = <<>> /\ tris = <<>> /\ strip = <<>>
        /\ k = 0 /\ dq = <<>> /\ apex = 0 /\ link = <<>>
Extend(v) == LET n == Len(p) IN
  /\ IF n = 0 THEN TRUE ELSE Lt(p[1], v)
  /\ \A i \in 1..n : p[i] # v
  /\ \A i, j \in 1..n : i < j => Turn(p[i], p[j], v) # 0
  /\ \A i \in 1..(n - 2) : ~Crosses(p[n], v, p[i], p[i + 1])
Grow == /\ pc = "grow" /\ Len(p) < Nv
        /\ \E v \in Grid : Extend(v) /\ p' = Append(p, v)
        /\ UNCHANGED <<a, b, pc, rest, tris, strip, k, dq, apex, link>>
Closes == IF Len(p) < 3 THEN FALSE ELSE \A i \in 2..(Len(p) - 2) : ~Crosses(p[Len(p)], p[1], p[i], p[i + 1])
Choose == /\ pc = "grow" /\ Closes
          \* The others are translations of these.
          /\ From = {} => p[1][1] = 0 /\ \E i \in 1..Len(p) : p[i][2] = 0
          /\ \E u, v \in {w \in Grid : (w[1] + 2 * w[2]) % Step = 0 /\ Inside2(p, Twice(w))} :
                                /\ u # v /\ GeneralPosition(p \o <<u, v>>)
                                /\ a' = u /\ b' = v
          /\ pc' = "ears"
          \* The leftmost vertex is convex: its turn tells the orientation.
          /\ LET lo == CHOOSE lo \in 1..Len(p) : \A j \in 1..Len(p) : ~Lt(p[j], p[lo])
                 ccw == Turn(Prev1(p, lo), p[lo], Next1(p, lo)) > 0
                 n == Len(p)
             IN rest' = IF ccw THEN [i \in 1..n |-> i] ELSE [i \in 1..n |-> n + 1 - i]
          /\ UNCHANGED <<p, tris, strip, k, dq, apex, link>>
(* Point i: vertices 1..n, then a and b.                                                                *)
Pt(i) == IF i <= Len(p) THEN p[i] ELSE IF i = Len(p) + 1 THEN a ELSE b
At(i) == rest[((i - 1) % Len(rest)) + 1]
IsDiagonal(i) ==
  LET n == Len(rest)
      m1 == Pt(At(i + n - 1))  p0 == Pt(At(i))  p1 == Pt(At(i + 1))  p2 == Pt(At(i + 2))
      cone == IF Turn(m1, p0, p1) > 0 THEN Turn(p0, p2, m1) > 0 /\ Turn(p2, p0, p1) > 0 ELSE Turn(p0, p2, p1) < 0
  IN cone /\ \A j \in 1..n : LET c == At(j)  d == At(j + 1) IN
               c \in {At(i), At(i + 2)} \/ d \in {At(i), At(i + 2)} \/ ~Crosses(p0, p2, Pt(c), Pt(d))
RemoveAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
Ear == /\ pc = "ears" /\ Len(rest) > 3
       /\ LET i == CHOOSE i \in 1..Len(rest) : IsDiagonal(i) /\ \A j \in 1..(i - 1) : ~IsDiagonal(j)
          IN /\ tris' = Append(tris, <<At(i), At(i + 1), At(i + 2)>>)
             /\ rest' = RemoveAt(rest, (i % Len(rest)) + 1)
       /\ UNCHANGED <<p, a, b, pc, strip, k, dq, apex, link>>
InTri(t, q) == LET s == {Turn(Pt(t[1]), Pt(t[2]), q), Turn(Pt(t[2]), Pt(t[3]), q), Turn(Pt(t[3]), Pt(t[1]), q)}
               IN -1 \notin s \/ s = {-1}
SetT(t) == {t[1], t[2], t[3]}
Share(ts, i, j) == i # j /\ Cardinality(SetT(ts[i]) \cap SetT(ts[j])) = 2
(* Neighbour across edge e of triangle i, 0 if none (the last that shares it, as the code records it).  *)
Across(ts, i, e) == LET ed == {ts[i][e], ts[i][(e % 3) + 1]}
                        S == {j \in 1..Len(ts) : j # i /\ ed \subseteq SetT(ts[j])}
                    IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : x <= j
RECURSIVE Search(_, _, _, _)
Search(ts, i, goal, seen) ==      \* strip from i to goal, <<>> if there is none
  IF i = goal THEN <<i>>
  ELSE LET try(e) == LET j == Across(ts, i, e) IN
                       IF j = 0 \/ j \in seen THEN <<>> ELSE Search(ts, j, goal, seen \cup {i})
           r1 == try(1)  r2 == IF r1 # <<>> THEN r1 ELSE try(2)  r3 == IF r2 # <<>> THEN r2 ELSE try(3)
       IN IF r3 = <<>> THEN <<>> ELSE <<i>> \o r3
FirstTri(ts, q) == CHOOSE i \in 1..Len(ts) : InTri(ts[i], q) /\ \A j \in 1..(i - 1) : ~InTri(ts[j], q)
Strip == /\ pc = "ears" /\ Len(rest) = 3
         /\ LET ts == Append(tris, <<rest[1], rest[2], rest[3]>>)
                f == FirstTri(ts, a)  g == FirstTri(ts, b)
            IN tris' = ts /\ strip' = Search(ts, f, g, {})
         /\ pc' = "funnel" /\ k' = 1 /\ dq' = <<Len(p) + 1>> /\ apex' = 1
         /\ link' = [i \in 1..(Len(p) + 2) |-> 0]
         /\ UNCHANGED <<p, a, b, rest>>
(* Where a tangent from point q meets the funnel.                                                       *)
FindSplit(q) ==
  LET F == {i \in 1..(apex - 1) : Turn(Pt(dq[i + 1]), Pt(dq[i]), Pt(q)) > 0}
      G == {i \in (apex + 1)..Len(dq) : Turn(Pt(dq[i - 1]), Pt(dq[i]), Pt(q)) < 0}
  IN IF Mode = "far" THEN apex
     ELSE IF F # {} /\ Mode = "late" THEN CHOOSE i \in F : \A x \in F : i >= x
     ELSE IF F # {} THEN CHOOSE i \in F : \A x \in F : i <= x
     ELSE IF G # {} THEN CHOOSE i \in G : \A x \in G : i >= x
     ELSE apex
Triangle ==
  /\ pc = "funnel" /\ k <= Len(strip) /\ Len(strip) > 1
  /\ LET t == tris[strip[k]]
         last == k = Len(strip)
         \* the edge to the next triangle, and the vertex opposite to it
         nx == IF last THEN {} ELSE SetT(tris[strip[k]]) \cap SetT(tris[strip[k + 1]])
         e == IF last THEN 1 ELSE CHOOSE e \in 1..3 : {t[e], t[(e % 3) + 1]} = nx
         e0 == t[e]  e1 == t[(e % 3) + 1]  opp == t[((e + 1) % 3) + 1]
         bi == Len(p) + 2
         front == dq[1]  back == dq[Len(dq)]
         L == IF last THEN (IF Turn(b, Pt(front), Pt(back)) > 0 THEN back ELSE bi)
              ELSE IF Turn(Pt(e0), Pt(opp), Pt(e1)) > 0 THEN e1 ELSE e0
         R == IF last THEN (IF L = bi THEN back ELSE bi) ELSE IF L = e1 THEN e0 ELSE e1
     IN IF k = 1
        THEN /\ dq' = <<R>> \o dq \o <<L>> /\ apex' = 2
             /\ link' = [link EXCEPT ![L] = dq[1], ![R] = dq[1]]
        ELSE IF front # R /\ back # R
        THEN LET s == FindSplit(R) IN      \* a new point on the right: goes to the front
             /\ dq' = <<R>> \o SubSeq(dq, s, Len(dq))
             /\ apex' = IF s > apex THEN 2 ELSE apex - s + 2
             /\ link' = [link EXCEPT ![R] = dq[s]]
        ELSE LET s == FindSplit(L) IN
             /\ dq' = SubSeq(dq, 1, s) \o <<L>>
             /\ apex' = IF s < apex THEN s ELSE apex
             /\ link' = [link EXCEPT ![L] = dq[s]]
  /\ k' = k + 1
  /\ UNCHANGED <<p, a, b, pc, rest, tris, strip>>
End == pc = "funnel" /\ (k > Len(strip) \/ Len(strip) <= 1) /\ pc' = "done"
       /\ UNCHANGED <<p, a, b, rest, tris, strip, k, dq, apex, link>>
Next == Grow \/ Choose \/ Ear \/ Strip \/ Triangle \/ End
Spec == Init /\ [][Next]_vars
RECURSIVE Links(_)
Links(i) == IF i = 0 THEN <<>> ELSE Append(Links(link[i]), Pt(i))
Path == IF Len(strip) = 1 THEN <<a, b>> ELSE Links(Len(p) + 2)
Correct == pc = "done" => IsTaut(p, a, b, Path)
(* The triangles make up the polygon.                                                                   *)
RECURSIVE SumArea(_, _)
SumArea(ts, i) == IF i > Len(ts) THEN 0 ELSE Cross(Pt(ts[i][1]), Pt(ts[i][2]), Pt(ts[i][3])) + SumArea(ts, i + 1)
RECURSIVE Area(_, _)
Area(q, i) == IF i > Len(q) THEN 0 ELSE Cross(<<0, 0>>, q[i], Next1(q, i)) + Area(q, i + 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Triangulated == pc = "funnel" => /\ Len(tris) = Len(p) - 2
                                 /\ SumArea(tris, 1) = Abs(Area(p, 1))
                                 /\ \A i \in 1..Len(tris) : Turn(Pt(tris[i][1]), Pt(tris[i][2]), Pt(tris[i][3])) > 0
                                 /\ Len(strip) >= 1
(* Some triangle can always be cut off.                                                                 *)
HasEar == pc = "ears" /\ Len(rest) > 3 => \E i \in 1..Len(rest) : IsDiagonal(i)
(* The taut path is unique and shortest: checked against every sequence of vertices.                     *)
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Seqs(S, n - 1) IN
   r \cup {Append(s, x) : <<s, x>> \in {y \in {s \in r : Len(s) = n - 1} \X S : \A i \in 1..Len(y[1]) : y[1][i] # y[2]}}
RECURSIVE Length(_)
Length(s) == IF Len(s) <= 1 THEN 0 ELSE Milli(DistSq(s[1], s[2])) + Length(Tail(s))
Unique == pc = "done" =>
  LET all == {<<a>> \o s \o <<b>> : s \in Seqs({p[i] : i \in 1..Len(p)}, Len(p))}
      inside == {s \in all : \A i \in 1..(Len(s) - 1) : StaysIn(p, s[i], s[i + 1])}
  IN /\ Cardinality({s \in inside : IsTaut(p, a, b, s)}) = 1
     /\ \A s \in inside : Length(Path) <= Length(s) + Len(p) + 2
=============================================================================
