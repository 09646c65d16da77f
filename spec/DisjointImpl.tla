----------------------------- MODULE DisjointImpl -----------------------------
(* find_disjoint_subgraphs: possible subgraphs are created and aliased edge by edge, then leaders are    *)
(* found, numbered, and their vertices collected. Leaders = FALSE is the original, defective code, which *)
(* aliased possible subgraphs without following their links first.                                      *)
EXTENDS SmallGraphs
CONSTANT Leaders
VARIABLES pc, k, vg, alias
vars == <<g, at, pc, k, vg, alias>>
Init == GrowInit /\ pc = "grow" /\ k = 1 /\ vg = <<>> /\ alias = <<>>
Begin == Grown /\ pc' = "edges" /\ vg' = [v \in 1..Len(g) |-> -1] /\ UNCHANGED <<k, alias>>
RECURSIVE Leader(_)
Leader(x) == IF alias[x + 1] = x THEN x ELSE Leader(alias[x + 1])
Edges ==
  /\ pc = "edges" /\ UNCHANGED <<g, at>>
  /\ IF k > NumEdges(g) THEN pc' = "done" /\ UNCHANGED <<k, vg, alias>>
     ELSE LET e == EdgeSeq(g)[k]  f == e[1] + 1  t == e[2] + 1  gf == vg[f]  gt == vg[t] IN
          /\ k' = k + 1 /\ UNCHANGED pc
          /\ CASE gf = -1 /\ gt = -1 -> /\ alias' = Append(alias, Len(alias))
                                        /\ vg' = [vg EXCEPT ![f] = Len(alias), ![t] = Len(alias)]
               [] gf = -1 /\ gt # -1 -> vg' = [vg EXCEPT ![f] = gt] /\ UNCHANGED alias
               [] gf # -1 /\ gt = -1 -> vg' = [vg EXCEPT ![t] = gf] /\ UNCHANGED alias
               [] OTHER ->
                    IF gf = gt THEN UNCHANGED <<vg, alias>>
                    ELSE LET a == IF Leaders THEN Leader(gf) ELSE gf
                             b == IF Leaders THEN Leader(gt) ELSE gt
                             lo == IF a < b THEN a ELSE b
                             hi == IF a < b THEN b ELSE a
                         IN alias' = [alias EXCEPT ![hi + 1] = lo] /\ UNCHANGED vg
Next == (Grow /\ UNCHANGED <<pc, k, vg, alias>>) \/ Begin \/ Edges
Spec == Init /\ [][Next]_vars
(* Links lead downwards, so following them ends.                                                        *)
Downward == \A i \in 1..Len(alias) : alias[i] <= i - 1
LeaderSeq == SelectSeq([i \in 1..Len(alias) |-> i - 1], LAMBDA x : alias[x + 1] = x)
Rows == [r \in 1..Len(LeaderSeq) |->
          SelectSeq([v \in 1..Len(g) |-> v - 1], LAMBDA v : vg[v + 1] # -1 /\ Leader(vg[v + 1]) = LeaderSeq[r])]
Correct == pc = "done" => IsComponents(g, Rows)
(* While edges are added, vertices with the same leader are connected, and processed edges join leaders. *)
Sound == pc = "edges" => \A i \in 1..(k - 1) : LET e == EdgeSeq(g)[i] IN
   vg[e[1] + 1] # -1 /\ vg[e[2] + 1] # -1 /\ Leader(vg[e[1] + 1]) = Leader(vg[e[2] + 1])
=============================================================================
