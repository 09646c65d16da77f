------------------------------ MODULE ChainImpl ------------------------------
(* find_chains: degrees are classified as none/one/many in two nibbles of a byte, then every edge from a *)
(* non-chain vertex into a chain vertex is followed.                                                    *)
EXTENDS SmallGraphs
VARIABLES pc, k, deg, w, rows
vars == <<g, at, pc, k, deg, w, rows>>
algo == <<pc, k, deg, w, rows>>
(* A packed byte: low nibble and high nibble; "many" (0xff) spills over into the high nibble.           *)
Pack(lo, hi) == IF Mut = "low" THEN <<IF lo = 255 THEN 1 ELSE lo, IF hi = 255 THEN 15 ELSE hi>> ELSE IF lo = 255 THEN <<15, 15>> ELSE <<lo, IF hi = 255 THEN 15 ELSE hi>>
Inc(d) == IF d = 0 THEN 1 ELSE 255
IsChain(v) == deg[v + 1] = <<1, 1>>
Init == GrowInit /\ pc = "grow" /\ k = 1 /\ deg = <<>> /\ w = <<>> /\ rows = <<>>
Begin == Grown /\ pc' = "deg" /\ deg' = [v \in 1..Len(g) |-> <<0, 0>>] /\ UNCHANGED <<k, w, rows>>
Edge == EdgeSeq(g)[k]
Deg == /\ pc = "deg" /\ UNCHANGED <<g, at, w, rows>>
       /\ IF k > NumEdges(g) THEN pc' = "scan" /\ k' = 1 /\ UNCHANGED deg
          ELSE /\ k' = k + 1 /\ UNCHANGED pc
               /\ LET f == Edge[1] + 1  t == Edge[2] + 1 IN
                  IF f = t /\ Mut # "loop" THEN deg' = [deg EXCEPT ![f] = Pack(255, 255)]
                  ELSE deg' = [deg EXCEPT ![f] = Pack(Inc(@[1]), @[2]), ![t] = Pack(@[1], Inc(@[2]))]
Scan == /\ pc = "scan" /\ UNCHANGED <<g, at, deg, rows>>
        /\ IF k > NumEdges(g) THEN pc' = "done" /\ UNCHANGED <<k, w>>
           ELSE IF ~IsChain(Edge[1]) /\ IsChain(Edge[2]) THEN pc' = "walk" /\ w' = Edge /\ UNCHANGED k
           ELSE k' = k + 1 /\ UNCHANGED <<pc, w>>
Walk == /\ pc = "walk" /\ UNCHANGED <<g, at, deg>>
        /\ LET v == w[Len(w)] IN
           IF IsChain(v) THEN w' = Append(w, Out(g, v)[1]) /\ UNCHANGED <<pc, k, rows>>
           ELSE rows' = (IF Mut = "round" /\ w[1] = v THEN rows ELSE Append(rows, w)) /\ w' = <<>> /\ pc' = "scan"
                /\ k' = IF Mut = "first" THEN LET L == {j \in (k + 1)..NumEdges(g) : EdgeSeq(g)[j][1] # Edge[1]} IN IF L = {} THEN NumEdges(g) + 1 ELSE CHOOSE j \in L : \A i \in L : j <= i
                        ELSE k + 1
Next == (Grow /\ UNCHANGED algo) \/ Begin \/ Deg \/ Scan \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Deg \/ Scan \/ Walk)
ChainVerts == pc \in {"scan", "walk", "done"} => {v \in Verts(g) : IsChain(v)} = Interior(g)
Correct == pc = "done" => rows = ChainsOf(g)
Terminates == <>(pc = "done")
=============================================================================
