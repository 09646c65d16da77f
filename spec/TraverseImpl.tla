---------------------------- MODULE TraverseImpl ----------------------------
(* traverse_depth_first_preorder: a stack of iterators over target lists.                              *)
EXTENDS SmallGraphs
CONSTANT K   \* calls of next() observed
VARIABLES stack,  \* of <<vertex, targets consumed>>
          out, start, ended
vars == <<g, at, stack, out, start, ended>>
Init == GrowInit /\ stack = <<>> /\ out = <<>> /\ start = -1 /\ ended = FALSE
Begin == Grown /\ \E v \in Verts(g) : start' = v /\ stack' = <<<<v, 0>>>> /\ UNCHANGED <<out, ended>>
Top == stack[Len(stack)]
Step == /\ start >= 0 /\ ~ended /\ Len(out) < K /\ UNCHANGED <<g, at, start>>
        /\ IF stack = <<>> THEN ended' = TRUE /\ UNCHANGED <<stack, out>>
           ELSE IF Top[2] < Len(Out(g, Top[1]))
           THEN LET v == Out(g, Top[1])[Top[2] + 1] IN
                  /\ stack' = IF Mut = "visited" /\ v \in SetOf(out) THEN [stack EXCEPT ![Len(stack)] = <<Top[1], Top[2] + 1>>]
                              ELSE IF Mut = "tail" /\ Top[2] + 1 = Len(Out(g, Top[1])) THEN [stack EXCEPT ![Len(stack)] = <<v, IF Len(out) > 1 THEN 1 ELSE 0>>]
                              ELSE IF Mut = "restart" THEN Append(stack, <<v, 0>>)
                              ELSE Append([stack EXCEPT ![Len(stack)] = <<Top[1], Top[2] + 1>>], <<v, 0>>)
                  /\ out' = IF Mut = "visited" /\ v \in SetOf(out) THEN out ELSE Append(out, v)
                  /\ UNCHANGED ended
           ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED out /\ ended' = (Mut = "leaf" /\ Len(stack) > 2)
Next == (Grow /\ UNCHANGED <<stack, out, start, ended>>) \/ Begin \/ Step
Spec == Init /\ [][Next]_vars
PrefixOk == start >= 0 => LET p == Preorder(g, start, K) IN
   /\ Len(out) <= Len(p[1]) /\ out = SubSeq(p[1], 1, Len(out))
   /\ (ended => out = p[1] /\ p[2])
=============================================================================
