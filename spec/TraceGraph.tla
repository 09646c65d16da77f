----------------------------- MODULE TraceGraph -----------------------------
(* Validates recorded results of the graph functions (C08-C16) against Graph.tla.                     *)
EXTENDS GraphBig, TraceLib
VARIABLE l
E == Trace[l]
TInit == l = 1
IsEvent(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
B(x) == IF x THEN 1 ELSE 0

(* The accessors describe graph g.                                                                    *)
Describes(e, g) ==
  /\ e.nv = Len(g) /\ e.ne = NumEdges(g) /\ e.from = g
  /\ e.flat = EdgeSeq(g)
  /\ e.lists = [i \in 1..Len(g) |-> <<i - 1>> \o g[i]]
  /\ e.wf = WellFormed(g)
(* Giant graphs come with certificates.                                                                *)
Giant == Has(E, "in")
Simple == NoParallel(E.adj) /\ IsTransposed(E.adj, E.in)
Build == /\ IsEvent("build") /\ ~E.panic
         /\ IF Has(E, "giant") THEN Describes(E, E.from) /\ IsBuilt(Walks(E.ops), E.from)
            ELSE Describes(E, Built(Walks(E.ops)))
Raw == IsEvent("raw") /\ ~E.panic /\ Describes(E, E.adj) /\ E.alias

Transpose == /\ IsEvent("transpose") /\ ~E.panic
             /\ IF Giant THEN /\ E.same = E.adj /\ E.nv = Len(E.adj) /\ E.ne = NumEdges(E.adj)
                               /\ NoParallel(E.adj) /\ IsTransposed(E.adj, E.t) /\ IsTransposed(E.t, E.tt)
                ELSE LET t == Transposed(E.adj) IN
                  /\ E.same = E.adj /\ E.nv = Len(E.adj) /\ E.ne = NumEdges(E.adj)
                  /\ E.t = t
                  /\ E.tt = Transposed(t)
                  /\ \A v \in 1..Len(t) : SameBag(E.tt[v], E.adj[v])

(* Occurrences of v in a list given as runs <<vertex, times>>.                                        *)
RECURSIVE Times(_, _)
Times(e, v) == IF e = <<>> THEN 0 ELSE (IF Head(e)[1] = v THEN Head(e)[2] ELSE 0) + Times(Tail(e), v)
MaxDeg == 65535
Degree ==
  /\ IsEvent("degree")
  /\ LET e == E
         oc == [v \in 0..(e.nv + Len(e.base)) |-> Times(e.e, v)]
         inb == \A i \in 1..Len(e.e) : e.e[i][2] = 0 \/ e.e[i][1] < e.nv
         inb2 == \A i \in 1..Len(e.e) : e.e[i][2] = 0 \/ e.e[i][1] < Len(e.base)
         sat(b, v) == IF b + oc[v] > MaxDeg THEN MaxDeg ELSE b + oc[v]
     IN /\ e.findpanic = ~inb /\ e.refpanic = ~inb /\ e.addpanic = ~inb2
        /\ inb => /\ e.find = [i \in 1..e.nv |-> sat(0, i - 1)]
                  /\ e.ref = [i \in 1..e.nv |-> B(oc[i - 1] > 0)]
        /\ inb2 => /\ e.add = [i \in 1..Len(e.base) |-> sat(e.base[i], i - 1)]
                   /\ e.sat = (\E i \in 1..Len(e.base) : e.base[i] + oc[i - 1] > MaxDeg)
Ends == /\ IsEvent("ends") /\ ~E.srcpanic /\ ~E.sinkpanic
        /\ LET T == SetOf(FlatG(E.adj)) IN E.sources = [i \in 1..Len(E.adj) |-> B((i - 1) \notin T)]
        /\ E.sinks = [i \in 1..Len(E.adj) |-> B(E.adj[i] = <<>>)]

Dfs == /\ IsEvent("dfs")
       /\ IF E.start >= Len(E.adj) THEN E.panic
          ELSE /\ ~E.panic
               /\ IF Giant THEN E.ended = E.again /\ IsPreorderBy(E.adj, E.start, E.out, E.ended, E.take, E.par, E.pos, E.up) ELSE
                  LET p == Preorder(E.adj, E.start, E.take) IN
                    E.out = p[1] /\ (Len(p[1]) < E.take => E.ended /\ E.again)
                    /\ (Len(p[1]) = E.take => ~E.ended)

Topo == /\ IsEvent("topo") /\ ~E.panic
        /\ E.ok = E.rok
        /\ IF E.ok /\ Giant THEN IsOrderAt(E.adj, E.order, E.pos) /\ IsOrderAt(E.adj, RevSeq(E.rorder), E.rpos)
           ELSE IF E.ok THEN IsOrder(E.adj, E.order) /\ IsOrder(E.adj, RevSeq(E.rorder))
           ELSE IF Giant THEN IsCycle(E.adj, E.cycle) ELSE ~Acyclic(E.adj)
Layers == /\ IsEvent("layers") /\ ~E.panic
          /\ IF E.ok THEN /\ (Giant \/ Acyclic(E.adj)) /\ IsLayering(E.adj, E.layer)
                          /\ E.n = 1 + (IF E.layer = <<>> THEN 0 ELSE MaxOf(SetOf(E.layer)))
             ELSE IF Giant THEN IsCycle(E.adj, E.cycle) ELSE ~Acyclic(E.adj)
Proper == /\ IsEvent("proper")
          /\ IF PointsDown(E.adj, E.layer) THEN /\ ~E.panic /\ E.ne = NumEdges(E.p)
                  /\ IF Giant THEN IsProperBy(E.adj, E.layer, E.p, E.own, E.dep, E.last) ELSE IsProper(E.adj, E.layer, E.p)
             ELSE E.panic
Disjoint == IsEvent("disjoint") /\ ~E.panic
            /\ (IF Giant THEN IsComponentsBy(E.adj, E.rows, E.of, E.up, E.depth) ELSE IsComponents(E.adj, E.rows))
            /\ E.nv = Len(FlatG(E.rows))
Chains == IsEvent("chains") /\ ~E.panic
          /\ (IF Giant THEN Simple /\ E.rows = ChainsWith(E.adj, InteriorBy(E.adj, E.in)) ELSE E.rows = ChainsOf(E.adj))
          /\ E.nv = Len(FlatG(E.rows))

TNext == Build \/ Raw \/ Transpose \/ Degree \/ Ends \/ Dfs \/ Topo \/ Layers \/ Proper \/ Disjoint \/ Chains
TSpec == TInit /\ [][TNext]_l
=============================================================================
