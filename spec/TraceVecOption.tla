--------------------------- MODULE TraceVecOption ---------------------------
(* Validates recorded VecOption histories against VecOption.tla. One event per public call, with its *)
(* arguments, result, destructor calls, and the contents afterwards. IOEnv.MODE selects the property: *)
(*   C01  the model's own state is the reference: contents, results and panics must be Eff's.        *)
(*   C02  ownership: relative to the contents logged before the call, every item is accounted for.   *)
(*   C03  views, compaction and conversions, relative to the contents logged before the call.        *)
(*   C04  comparisons, hashes and clones of pairs of contents.                                        *)
EXTENDS VecOption, TraceLib
Mode == IOEnv.MODE

VARIABLES l,    \* position in the trace
          tok,  \* the items of this case have destructors
          ClAdd \* what clones add to the identity of an item (0: nothing, e.g. items without a size)
tvars == <<l, tok, ClAdd, v, last>>

TInit == l = 1 /\ v = <<>> /\ tok = FALSE /\ ClAdd = 0 /\ last = [ev |-> "init"]

Consume(e) == l' = l + 1 /\ last' = [ev |-> e.ev]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ Consume(Trace[l])

Begin == IsEvent("begin") /\ v' = <<>> /\ tok' = Trace[l].tok /\ ClAdd' = Trace[l].cladd

-----------------------------------------------------------------------------
(* C01 *)
FollowsModel(e) ==
  LET r == Eff(e, v, ClAdd) IN
    /\ e.panic = r.panic /\ e.ret = r.ret /\ e.st = r.v
    /\ e.len = Len(r.v) /\ e.empty = (r.v = <<>>)
    /\ (e.ev = "clone_drop" => e.panic \/ e.same)
    /\ v' = r.v

(* C02. What the caller now owns.                                                                    *)
Handed(e) == IF e.ev \in {"pop", "pop_some", "replace", "replace_some", "replace_none", "get_clone",
                          "drain", "some_into_vec", "into_iter", "into_some_iter"}
             THEN SelectSeq(e.ret, LAMBDA x : x > 0) ELSE <<>>
Accounted(e) ==
  /\ IF e.ev = "clone_drop"
     THEN /\ SameBag(e["in"], Bump(Some(v), 100000))
          /\ SameBag(e.drops, Bump(Some(v), 100001))
          /\ e.st = v
     ELSE IF e.ev = "bump" THEN e.drops = <<>> /\ Some(e.st) = Bump(Some(v), 1)
     ELSE SameBag(Some(v) \o e["in"], Some(e.st) \o Handed(e) \o e.drops)
  /\ v' = e.st
Once(s) == Cardinality(Range(s)) = Len(s)
FaultOk(e) ==
  /\ e.before = v
  /\ e.mem = 0
  /\ Once(e.drops \o NonZero(e.ret) \o e.drops2)
  /\ Range(e.drops) \cup Range(NonZero(e.ret)) \cup Range(e.drops2) \subseteq Range(Some(v)) \cup Range(e.made)
  /\ SameBag(e.drops2, Some(e.left))
  /\ (e.ev = "fault_clone" => e.left = v /\ Range(e.drops) \cap Range(v) = {})
  /\ (~e.panic /\ e.ev # "fault_forget" =>
        SameBag(Some(v) \o e.made, e.drops \o NonZero(e.ret) \o e.drops2))
  /\ v' = <<>>

(* C03 *)
ViewOps == {"views", "compact", "compact_write", "some_into_vec", "from_vec", "repeat_none", "collect",
            "collect_blind", "extend", "extend_blind", "into_iter", "into_some_iter", "bump", "write", "get"}
ViewsOk(e) ==
  /\ e.len = Len(e.st) /\ e.empty = (e.st = <<>>)
  /\ (e.ev \in ViewOps => LET r == Eff(e, v, ClAdd) IN e.panic = r.panic /\ e.ret = r.ret /\ e.st = r.v)
  /\ (e.ev = "views" =>
        /\ e.iter = v /\ e.iter_mut = v
        /\ e.some_index = Pairs(v) /\ e.some_index_mut = Pairs(v)
        /\ e.runs = Runs(v) /\ e.runs_mut = Runs(v) /\ e.fused)
  /\ v' = e.st

Op == /\ l <= Len(Trace) /\ Trace[l].ev \in Known /\ Consume(Trace[l]) /\ UNCHANGED <<tok, ClAdd>>
      /\ CASE Mode = "C01" -> FollowsModel(Trace[l])
           [] Mode = "C02" -> Accounted(Trace[l])
           [] Mode = "C03" -> ViewsOk(Trace[l])

Fault == /\ l <= Len(Trace) /\ Trace[l].ev \in {"fault_drop", "fault_iter", "fault_some_iter", "fault_drain",
                                                "fault_clone", "fault_set", "fault_extend", "fault_collect",
                                                "fault_forget"}
         /\ Consume(Trace[l]) /\ UNCHANGED <<tok, ClAdd>>
         /\ IF Mode = "C02" THEN FaultOk(Trace[l]) ELSE v' = <<>>

End == /\ IsEvent("end") /\ UNCHANGED <<tok, ClAdd>> /\ v' = <<>>
       /\ (Mode = "C02" => SameBag(Trace[l].drops, IF tok THEN Some(v) ELSE <<>>) /\ Trace[l].mem = 0)

-----------------------------------------------------------------------------
(* C04. Comparison of optional items (absent before present) and of contents.                        *)
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
(* The first position from 1 on where the items decide, 0 if there is none.                          *)
FirstOf(n, P(_)) == LET d == SelectSeq([i \in 1..n |-> i], P) IN IF d = <<>> THEN 0 ELSE d[1]
Cmp(a, b) == IF Len(a) # Len(b) THEN Sign(Len(a), Len(b))
             ELSE LET i == FirstOf(Len(a), LAMBDA j : a[j] # b[j]) IN IF i = 0 THEN 0 ELSE Sign(a[i], b[i])
(* The same for items that may be incomparable (90 and up, like NaN); 9 stands for "incomparable".   *)
Odd(x) == x >= 90
PCmp1(x, y) == IF (Odd(x) /\ y # 0) \/ (Odd(y) /\ x # 0) THEN 9 ELSE Sign(x, y)
PCmp(a, b) == IF Len(a) # Len(b) THEN Sign(Len(a), Len(b))
              ELSE LET i == FirstOf(Len(a), LAMBDA j : PCmp1(a[j], b[j]) # 0) IN IF i = 0 THEN 0 ELSE PCmp1(a[i], b[i])
PEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] /\ ~Odd(a[i])

Pair == /\ IsEvent("pair") /\ UNCHANGED <<v, tok, ClAdd>>
        /\ LET e == Trace[l]  c == Cmp(e.a, e.b) IN
             /\ e.eq = (c = 0) /\ e.ne = (c # 0) /\ e.eq = (e.a = e.b)
             /\ e.cmp = c /\ e.pcmp = c /\ e.lt = (c < 0) /\ e.le = (c <= 0)
             /\ (e.a = e.b => e.samehash)
             /\ e.peq = PEq(e.a, e.b) /\ e.ppcmp = PCmp(e.a, e.b)
             /\ e.cloneeq /\ e.clonehash /\ e.clone = e.a /\ e.clonelen = Len(e.a) /\ e.clonecmp = c
Indep == /\ IsEvent("indep") /\ UNCHANGED <<v, tok, ClAdd>>
         /\ LET e == Trace[l] IN
              /\ e.orig = e.a /\ e.len = Len(e.a) + 1
              /\ e.w = Append([i \in 1..Len(e.a) |-> 88], 3)

TNext == Begin \/ Op \/ Fault \/ End \/ Pair \/ Indep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
