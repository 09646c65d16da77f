------------------------------ MODULE ProperImpl ------------------------------
(* create_proper_graph: for every edge in order, a chain of fresh virtual vertices.                     *)
EXTENDS SmallGraphs, GraphBig
CONSTANT H   \* highest layer
VARIABLES pc, layer, k, prev, left, nextv, es
vars == <<g, at, pc, layer, k, prev, left, nextv, es>>
algo == <<pc, layer, k, prev, left, nextv, es>>
Init == GrowInit /\ pc = "grow" /\ layer = <<>> /\ k = 0 /\ prev = -1 /\ left = 0 /\ nextv = 0 /\ es = <<>>
Begin == /\ Grown /\ \E L \in [1..Len(g) -> 0..H] : PointsDown(g, L) /\ layer' = L
         /\ pc' = "edge" /\ k' = 1 /\ nextv' = Len(g) /\ UNCHANGED <<prev, left, es>>
Edge == EdgeSeq(g)[k]
StartEdge == /\ pc = "edge" /\ UNCHANGED <<g, at, layer, nextv, es, k>>
             /\ IF k > NumEdges(g) THEN pc' = "done" /\ UNCHANGED <<prev, left>>
                ELSE pc' = "virt" /\ prev' = Edge[1] /\ left' = LET d == layer[Edge[1] + 1] - layer[Edge[2] + 1] - 1 IN IF Mut = "cap" /\ d > 1 THEN 1 ELSE d
Virt == /\ pc = "virt" /\ UNCHANGED <<g, at, layer>>
        /\ IF left > 0
           THEN es' = Append(es, <<prev, nextv>>) /\ prev' = (IF Mut = "fan" THEN prev ELSE nextv) /\ nextv' = nextv + 1 /\ left' = left - 1
                /\ UNCHANGED <<pc, k>>
           ELSE es' = Append(es, <<prev, Edge[2]>>) /\ pc' = "edge" /\ k' = (IF Mut = "parallel" /\ k < NumEdges(g) /\ EdgeSeq(g)[k + 1] = Edge THEN k + 2 ELSE k + 1) /\ UNCHANGED <<prev, left>>
                /\ nextv' = IF Mut = "reuse" /\ nextv > Len(g) + 1 THEN nextv - 1 ELSE nextv
Next == (Grow /\ UNCHANGED algo) \/ Begin \/ StartEdge \/ Virt
Spec == Init /\ [][Next]_vars
P == [v \in 1..nextv |-> LET s == SelectSeq(es, LAMBDA e : e[1] = v - 1) IN [i \in 1..Len(s) |-> s[i][2]]]
Correct == pc = "done" => IsProper(g, layer, P)
(* The definition has teeth: dropping or redirecting an edge of a proper graph is noticed.              *)
Teeth == pc = "done" =>
  /\ \A v \in 1..Len(P) : P[v] # <<>> => ~IsProper(g, layer, [P EXCEPT ![v] = Tail(@)])
  /\ \A v \in 1..Len(P) : \A t \in 0..(Len(P) - 1) :
       (P[v] # <<>> /\ P[v][1] # t) => ~IsProper(g, layer, [P EXCEPT ![v][1] = t])
(* The formulation with a certificate says the same, about right and wrong results.                      *)
Chain(q, i, j) == Follow(q, Len(g), q[i][j], <<>>)[2]
SameBy(q) ==
  LET ch == [i \in 1..Len(g) |-> [j \in 1..Len(q[i]) |-> Chain(q, i, j)]]
      all == UNION {{<<i, j, c>> : j \in DOMAIN ch[i], c \in 1..Len(q)} : i \in DOMAIN ch}
      real == {x \in all : x[3] <= Len(ch[x[1]][x[2]])}
      place == [v \in 1..Len(q) |-> LET S == {x \in real : ch[x[1]][x[2]][x[3]] = v - 1}
                                    IN IF S = {} THEN <<0, 0, 0>> ELSE CHOOSE x \in S : TRUE]
      own == [v \in 1..Len(q) |-> <<place[v][1], place[v][2]>>]
      dep == [v \in 1..Len(q) |-> place[v][3]]
      last == [i \in 1..Len(g) |-> [j \in DOMAIN ch[i] |-> IF ch[i][j] = <<>> THEN -1 ELSE ch[i][j][Len(ch[i][j])]]]
  IN IsProper(g, layer, q) <=> IsProperBy(g, layer, q, own, dep, last)
BySame == pc = "done" =>
  /\ SameBy(P)
  /\ \A v \in 1..Len(P) : P[v] # <<>> =>
       /\ SameBy([P EXCEPT ![v] = Tail(@)]) /\ SameBy([P EXCEPT ![v] = Append(@, P[v][1])])
       /\ \A t \in 0..(Len(P) - 1) : SameBy([P EXCEPT ![v][1] = t])
  /\ SameBy(Append(P, <<>>)) /\ (P # <<>> => SameBy(SubSeq(P, 1, Len(P) - 1)))
=============================================================================
