----------------------------- MODULE TraceTaut ------------------------------
(* Validates recorded results of Pshortestpath (C22).                                                   *)
EXTENDS Taut, TraceLib
VARIABLE l
E0 == Trace[l]
TInit == l = 1
IsEvent(n) == l <= Len(Trace) /\ E0.ev = n /\ l' = l + 1
(* A polygon may list a vertex several times in a row.                                                  *)
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) <= 1 THEN s ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
(* A vertex that is an end point may be listed twice; so may the end point if a = b.                    *)
Ends(s) == LET d == Dedup(s) IN IF Len(s) > 1 /\ Len(d) = 1 THEN d \o d ELSE d
Inner == /\ IsEvent("inner") /\ ~E0.panic
         /\ LET p == Dedup(E0.poly)
                in(q) == InPolygon2(p, Twice(q))
                out(q) == ~InPolygon2(p, Twice(q))
            IN /\ in(E0.a) /\ in(E0.b) => E0.ok /\ IsTaut(p, E0.a, E0.b, Ends(E0.path))
               /\ out(E0.a) \/ out(E0.b) => ~E0.ok
TNext == Inner
TSpec == TInit /\ [][TNext]_l
=============================================================================
