----------------------------- MODULE TraceRamp -----------------------------
(* Validates recorded RampTable histories (C05) against RampTable.tla, and finished builders (C06).  *)
EXTENDS RampTable, TraceLib
VARIABLE l
tvars == <<l, vars>>
TInit == l = 1 /\ Init
E == Trace[l]
Begin == l <= Len(Trace) /\ E.ev = "begin" /\ l' = l + 1 /\ rows' = <<>> /\ tail' = <<>>

ViewsOk(e, r, t) ==
  /\ e.full
  /\ e.iter = r /\ e.itermut = r /\ e.rev = Rev(r) /\ e.exact = Len(r) /\ e.both = Both(r)
  /\ e.pairs = Pairs(r) /\ e.manual = Pairs(r)
  /\ e.numkeys = Len(r) /\ e.numvalues = Len(Flat(r)) + Len(t)
  /\ AreRanges(e.ranges, r)
  /\ e.all = Flat(r) \o t /\ e.allmut = Flat(r) \o t
  /\ (~Has(e, "lite") => e.debug = DebugText(r))
  /\ e.cloneeq /\ e.rebuilteq /\ e.longerne /\ e.morene

Op == /\ l <= Len(Trace) /\ E.ev \in Known /\ l' = l + 1
      /\ LET r == Eff(E) IN
           /\ E.panic = r.panic /\ E.ret = r.ret
           /\ rows' = r.rows /\ tail' = r.tail
           /\ E.rows = r.rows /\ E.values = Flat(r.rows) \o r.tail
           /\ E.len = Len(r.rows) /\ E.empty = (r.rows = <<>>) /\ E.nv = Len(Flat(r.rows)) + Len(r.tail)
           /\ (E.ev = "views" => ViewsOk(E, r.rows, r.tail))

(* C06. All values of key k, in the order in which they were pushed.                                 *)
Of(pairs, k) == LET s == SelectSeq(pairs, LAMBDA p : p[1] = k) IN [i \in 1..Len(s) |-> s[i][2]]
NumKeysOk(pairs, n) == /\ \A i \in 1..Len(pairs) : pairs[i][1] < n
                       /\ IF pairs = <<>> THEN n = 0 ELSE {i \in 1..Len(pairs) : pairs[i][1] = n - 1} # {}
(* The same, for values that are the positions of their pairs: every row lists pairs of its key in     *)
(* order, and there are as many values as pairs.                                                      *)
Grouped(pairs, r) ==
  /\ \A k \in 1..Len(r) : /\ \A j \in 1..Len(r[k]) : pairs[r[k][j]] = <<k - 1, r[k][j]>>
                          /\ \A i \in 1..(Len(r[k]) - 1) : r[k][i] < r[k][i + 1]
  /\ Len(Flat(r)) = Len(pairs)
Build == /\ l <= Len(Trace) /\ E.ev = "build" /\ l' = l + 1 /\ UNCHANGED vars
         /\ ~E.panic
         /\ TRUE = LET n == E.len  r == E.rows IN
              /\ NumKeysOk(E.pairs, n) /\ Len(r) = n /\ E.values = Flat(r)
              /\ IF Len(E.pairs) + n > 500 THEN Grouped(E.pairs, r)
                 ELSE \A k \in 1..n : r[k] = Of(E.pairs, k - 1)

TNext == Begin \/ Op \/ Build
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
