------------------------------ MODULE TracePQ ------------------------------
(* Validates recorded PQ histories (C07) against PQ.tla.                                             *)
EXTENDS PQ, TraceLib
VARIABLE l
tvars == <<l, vars>>
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1 /\ Init
Begin == IsEvent("begin") /\ bag' = {} /\ count' = 0 /\ removed' = <<>>
TInsert == IsEvent("insert") /\ ~E.panic /\ Insert(E.x) /\ E.ret = <<count'>>
TRemove == /\ IsEvent("remove") /\ ~E.panic
           /\ IF E.ret = <<>> THEN RemoveEmpty ELSE Take(E.ret)
TClear == IsEvent("clear") /\ ~E.panic /\ Clear
TBulk == /\ IsEvent("bulk") /\ ~E.panic /\ bag = {} /\ count' = 0 /\ bag' = {} /\ removed' = <<>>
         /\ E.last = <<>> /\ Bulk(E.xs, E.h, E.ys, E.r1, E.r2)
TNext == TBulk \/ Begin \/ TInsert \/ TRemove \/ TClear
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
