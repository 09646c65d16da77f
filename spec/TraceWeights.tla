---------------------------- MODULE TraceWeights ----------------------------
(* Validates recorded results of the two shortest-path searches (C17, C18).                           *)
EXTENDS Weights, TraceLib
VARIABLE l
E0 == Trace[l]
TInit == l = 1
IsEvent(n) == l <= Len(Trace) /\ E0.ev = n /\ l' = l + 1
Search == /\ IsEvent("search") /\ ~E0.panic
          /\ IsLeastPath(Len(E0.adj), AdjEdges(E0.adj), E0.s, E0.t, E0.found, E0.path)
Matrix == /\ IsEvent("matrix") /\ ~E0.panic /\ ~E0.above
          /\ LET n == Len(E0.w)  M == MatrixEdges(E0.w) IN
               IsPredecessors(n, M, E0.s, E0.t, E0.dad) /\ IsPredecessors(n, M, E0.s, E0.t, E0.gdad)
(* Big ones carry a certificate; a certificate that is none makes the check fail, not the code.            *)
BigSearch == /\ IsEvent("bigsearch") /\ ~E0.panic
             /\ TRUE = (/\ Assert(IsPotential(E0.adj, E0.s, E0.pot), "not a certificate")
                        /\ IsPotentialPath(E0.adj, E0.pot, E0.s, E0.t, E0.found, E0.path))
BigMatrix == /\ IsEvent("bigmatrix") /\ ~E0.panic /\ ~E0.above
             /\ TRUE = (/\ Assert(IsMatrixPotential(E0.w, E0.s, E0.pot), "not a certificate")
                        /\ IsMatrixPotentialPath(E0.w, E0.pot, E0.s, E0.t, E0.dad)
                        /\ IsMatrixPotentialPath(E0.w, E0.pot, E0.s, E0.t, E0.gdad))
TNext == Search \/ Matrix \/ BigSearch \/ BigMatrix
TSpec == TInit /\ [][TNext]_l
=============================================================================
