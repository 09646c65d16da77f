----------------------------- MODULE RouteImpl ------------------------------
(* Proutespline, shape of the code: a piece of the template i..j is drawn as one cubic if that fits, or if  *)
(* it is a single segment; otherwise it is split at some point in between, and both parts are drawn in      *)
(* order. Whether a curve fits is left open; so is the split.                                             *)
(* Mode "ok" is the code; "gap" starts the second part one later; "force" forces every last part;           *)
(* "tangent" uses another tangent on the other side of the split.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Mode
VARIABLES stack, out, fits
vars == <<stack, out, fits>>
(* A task is <<i, j, tangent at i, tangent at j>>; tangents are named by the point they belong to.          *)
Init == /\ stack \in {<<<<1, n, 1, n>>>> : n \in 2..N} /\ out = <<>>
        /\ fits \in [{<<i, j>> \in (1..N) \X (1..N) : i < j} -> BOOLEAN]
Top == stack[1]
Draw(t, f) == out' = Append(out, [from |-> t[1], to |-> t[2], tf |-> t[3], tt |-> t[4], forced |-> f])
Step ==
  /\ stack # <<>> /\ UNCHANGED fits
  /\ IF fits[<<Top[1], Top[2]>>] THEN Draw(Top, FALSE) /\ stack' = Tail(stack)
     ELSE IF Top[2] = Top[1] + 1 \/ (Mode = "force" /\ Len(stack) = 1) THEN Draw(Top, TRUE) /\ stack' = Tail(stack)
     ELSE \E s \in (Top[1] + 1)..(Top[2] - 1) :
            /\ stack' = <<<<Top[1], s, Top[3], s>>,
                          <<IF Mode = "gap" /\ s + 1 < Top[2] THEN s + 1 ELSE s, Top[2], IF Mode = "tangent" THEN s + 1 ELSE s, Top[4]>>>> \o Tail(stack)
            /\ UNCHANGED out
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Last == IF out = <<>> THEN 0 ELSE out[Len(out)].to
Chain == /\ out # <<>> => out[1].from = 1
         /\ \A k \in 1..(Len(out) - 1) : out[k].to = out[k + 1].from /\ out[k].tt = out[k + 1].tf
         /\ \A k \in 1..Len(out) : out[k].from < out[k].to /\ out[k].tf = out[k].from /\ out[k].tt = out[k].to
Safe == \A k \in 1..Len(out) : fits[<<out[k].from, out[k].to>>] \/ (out[k].forced /\ out[k].to = out[k].from + 1)
Whole == stack = <<>> => \E n \in 2..N : Last = n
(* What is left to do is the part of the template that has not been drawn.                                *)
Rest == /\ stack # <<>> /\ out # <<>> => Top[1] = Last
        /\ \A k \in 1..(Len(stack) - 1) : stack[k][2] = stack[k + 1][1]
Ends == <>(stack = <<>>)
=============================================================================
