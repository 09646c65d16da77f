----------------------------- MODULE VecOption -----------------------------
(* The abstract VecOption: a sequence of optional items. Items are positive integers, an absent     *)
(* item is 0. Every operation of the public API is one atomic transition, described by Eff: what    *)
(* it does to the contents and what it returns. Sequences are 1-based here, indices 0-based in the  *)
(* API.                                                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cat(s, t) == s \o t
Some(s) == SelectSeq(s, LAMBDA x : x # 0)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Put(s, i, x) == [s EXCEPT ![i + 1] = x]
Cut(s, lo, hi) == SubSeq(s, 1, lo) \o SubSeq(s, hi + 1, Len(s))
Nones(n) == [i \in 1..n |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
Prefix(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
(* What a consumer that asks `take` times for the next item of s sees: it stops at the end (-1).     *)
Taken(s, take) == IF take <= Len(s) THEN SubSeq(s, 1, take) ELSE Append(s, -1)

Where(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], P)
Present(s) == Where(s, LAMBDA i : s[i] # 0)
DropNones(s) == LET p == Present(s) IN IF p = <<>> THEN <<>> ELSE SubSeq(s, 1, p[Len(p)])

(* Maximal stretches of present items.                                                              *)
Runs(s) ==
  LET first == Where(s, LAMBDA i : s[i] # 0 /\ (i = 1 \/ s[i - 1] = 0))
      final == Where(s, LAMBDA i : s[i] # 0 /\ (i = Len(s) \/ s[i + 1] = 0))
  IN [k \in 1..Len(first) |-> SubSeq(s, first[k], final[k])]

Pairs(s) == LET p == Present(s) IN [k \in 1..Len(p) |-> <<p[k] - 1, s[p[k]]>>]
Bump(s, d) == [i \in 1..Len(s) |-> IF s[i] = 0 THEN 0 ELSE s[i] + d]

-----------------------------------------------------------------------------
Done(nv, ret) == [v |-> nv, ret |-> ret, panic |-> FALSE]
Fail(v) == [v |-> v, ret |-> <<>>, panic |-> TRUE]

(* The half-open range meant by the bounds of a drain: kind 0 unbounded, 1 included, 2 excluded.     *)
Lo(e) == CASE e.lk = 0 -> 0 [] e.lk = 1 -> e.lo [] OTHER -> e.lo + 1
Hi(e, v) == CASE e.hk = 0 -> Len(v) [] e.hk = 1 -> e.hi + 1 [] OTHER -> e.hi

Known == {"new", "with_capacity", "from_vec", "repeat_none", "collect", "collect_blind", "extend",
  "extend_blind", "reserve", "push", "push_some", "push_none", "pop", "pop_some", "replace",
  "replace_some", "replace_none", "set", "set_some", "set_none", "swap", "get", "get_clone", "write",
  "drain", "compact", "compact_write", "some_into_vec", "into_iter", "into_some_iter", "clone_keep",
  "clone_drop", "views", "bump"}

(* Effect of operation e on contents v. cl is what cloning adds to an item's identity.               *)
Eff(e, v, cl) ==
  LET In(i) == i < Len(v)
      At(i) == v[i + 1]
  IN CASE e.ev \in {"new", "with_capacity"} -> Done(<<>>, <<>>)
       [] e.ev \in {"from_vec", "collect", "collect_blind"} -> Done(e.xs, <<>>)
       [] e.ev = "repeat_none" -> Done(Nones(e.n), <<>>)
       [] e.ev \in {"extend", "extend_blind"} -> Done(v \o e.xs, <<>>)
       [] e.ev \in {"reserve", "views"} -> Done(v, <<>>)
       [] e.ev \in {"push", "push_some"} -> Done(Append(v, e.x), <<>>)
       [] e.ev = "push_none" -> Done(Append(v, 0), <<>>)
       [] e.ev = "pop" -> IF v = <<>> THEN Done(v, <<>>)
                          ELSE Done(SubSeq(v, 1, Len(v) - 1), <<v[Len(v)]>>)
       [] e.ev = "pop_some" -> LET w == DropNones(v) IN
                               IF w = <<>> THEN Done(<<>>, <<0>>)
                               ELSE Done(SubSeq(w, 1, Len(w) - 1), <<w[Len(w)]>>)
       [] e.ev \in {"replace", "replace_some"} ->
            IF In(e.i) THEN Done(Put(v, e.i, e.x), <<At(e.i)>>) ELSE Fail(v)
       [] e.ev = "replace_none" -> IF In(e.i) THEN Done(Put(v, e.i, 0), <<At(e.i)>>) ELSE Fail(v)
       [] e.ev \in {"set", "set_some"} -> IF In(e.i) THEN Done(Put(v, e.i, e.x), <<>>) ELSE Fail(v)
       [] e.ev = "set_none" -> IF In(e.i) THEN Done(Put(v, e.i, 0), <<>>) ELSE Fail(v)
       [] e.ev = "swap" -> IF In(e.a) /\ In(e.b) THEN Done(Put(Put(v, e.a, At(e.b)), e.b, At(e.a)), <<>>)
                           ELSE Fail(v)
       [] e.ev = "get" -> IF In(e.i) THEN Done(v, <<At(e.i)>>) ELSE Fail(v)
       [] e.ev = "get_clone" -> IF In(e.i) THEN Done(v, <<IF At(e.i) = 0 THEN 0 ELSE At(e.i) + cl>>)
                                ELSE Fail(v)
       [] e.ev = "write" -> IF ~In(e.i) THEN Fail(v)
                            ELSE IF At(e.i) = 0 THEN Done(v, <<0>>) ELSE Done(Put(v, e.i, e.x), <<1>>)
       [] e.ev = "drain" ->
            LET lo == Lo(e)  hi == Hi(e, v) IN
            IF lo <= hi /\ hi <= Len(v) THEN Done(Cut(v, lo, hi), Taken(SubSeq(v, lo + 1, hi), e.take))
            ELSE Fail(v)
       [] e.ev = "compact" -> Done(Some(v), Some(v))
       [] e.ev = "compact_write" -> Done(Rev(Some(v)), Rev(Some(v)))
       [] e.ev = "some_into_vec" -> Done(<<>>, Some(v))
       [] e.ev = "into_iter" -> Done(<<>>, Taken(v, e.take))
       [] e.ev = "into_some_iter" -> Done(<<>>, Taken(Some(v), e.take))
       [] e.ev = "clone_keep" -> Done(Bump(v, cl), <<>>)
       [] e.ev = "clone_drop" -> Done(v, Bump(v, cl) \o Bump(v, cl + 1))
       [] e.ev = "bump" -> Done(Bump(v, 1), <<>>)

-----------------------------------------------------------------------------
(* The state machine, for model checking and for generating behaviours.                             *)
CONSTANTS Items,     \* item identities
          MaxLen     \* bound on the length of the contents
VARIABLES v,         \* contents
          last       \* the last operation (observation only; hidden by the VIEW of the model)
vars == <<v, last>>

Opt == Items \cup {0}
Idx == 0..MaxLen
Ops ==
  {[ev |-> n] : n \in {"new", "push_none", "pop", "pop_some", "compact", "compact_write",
                       "some_into_vec", "clone_keep", "clone_drop", "views"}}
  \cup {[ev |-> "push", x |-> x] : x \in Opt}
  \cup {[ev |-> n, x |-> x] : n \in {"push_some"}, x \in Items}
  \cup {[ev |-> n, i |-> i, x |-> x] : n \in {"replace", "set"}, i \in Idx, x \in Opt}
  \cup {[ev |-> n, i |-> i, x |-> x] : n \in {"replace_some", "set_some", "write"}, i \in Idx, x \in Items}
  \cup {[ev |-> n, i |-> i] : n \in {"replace_none", "set_none", "get_clone"}, i \in Idx}
  \cup {[ev |-> "get", i |-> i, how |-> h] : i \in Idx, h \in {"ref", "mut", "copy"}}
  \cup {[ev |-> "swap", a |-> a, b |-> b] : a \in Idx, b \in Idx}
  \cup {[ev |-> n, take |-> t] : n \in {"into_iter", "into_some_iter"}, t \in Idx}
  \cup {[ev |-> "drain", lk |-> lk, lo |-> lo, hk |-> hk, hi |-> hi, take |-> t] :
          lk \in 0..2, lo \in Idx, hk \in 0..2, hi \in Idx, t \in 0..2}
  \cup {[ev |-> "bump", how |-> h] : h \in {"iter_mut", "some_index_mut", "get_mut", "runs_mut"}}
  \cup {[ev |-> "repeat_none", n |-> k] : k \in Idx}
  \cup {[ev |-> "extend", xs |-> <<a, b>>] : a \in Opt, b \in Opt}
  \cup {[ev |-> n, xs |-> <<a, b>>] : n \in {"from_vec"}, a \in Items, b \in Items}
  \cup {[ev |-> n, xs |-> <<a, b, c>>] : n \in {"collect"}, a \in Opt, b \in Opt, c \in Opt}

Init == v = <<>> /\ last = [ev |-> "init"]
Do(op) == LET r == Eff(op, v, 0) IN v' = r.v /\ last' = op
Next == \E op \in Ops : Len(Eff(op, v, 0).v) <= MaxLen /\ op.ev # "bump" /\ Do(op)
Spec == Init /\ [][Next]_vars

TypeOK == v \in UNION {[1..n -> Opt] : n \in 0..MaxLen}
(* The definitions above, in their inductive form.                                                  *)
RECURSIVE DropNonesInd(_)
DropNonesInd(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE DropNonesInd(SubSeq(s, 1, Len(s) - 1))
RECURSIVE RunsFrom(_, _, _)
RunsFrom(s, i, cur) ==
  IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF s[i] # 0 THEN RunsFrom(s, i + 1, Append(cur, s[i]))
  ELSE (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o RunsFrom(s, i + 1, <<>>)
Inductive == DropNones(v) = DropNonesInd(v) /\ Runs(v) = RunsFrom(v, 1, <<>>)
(* The views of the same contents agree with each other.                                            *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ViewsAgree ==
  /\ Flat(Runs(v)) = Some(v)
  /\ [k \in 1..Len(Pairs(v)) |-> Pairs(v)[k][2]] = Some(v)
  /\ \A k \in 1..Len(Runs(v)) : Runs(v)[k] # <<>>
  /\ Len(Runs(v)) = Cardinality({i \in 1..Len(v) : v[i] # 0 /\ (i = 1 \/ v[i - 1] = 0)})
(* Ownership: no operation invents or duplicates items; a failed one changes nothing.               *)
Conserved == \A op \in Ops :
  LET r == Eff(op, v, 0) IN
    /\ (r.panic => r.v = v)
    /\ \A x \in Items : Cardinality({i \in 1..Len(r.v) : r.v[i] = x})
         <= Cardinality({i \in 1..Len(v) : v[i] = x})
            + (IF "x" \in DOMAIN op /\ op.x = x THEN 1 ELSE 0)
            + (IF "xs" \in DOMAIN op THEN Cardinality({i \in 1..Len(op.xs) : op.xs[i] = x}) ELSE 0)
            + (IF op.ev = "bump" THEN MaxLen ELSE 0)
=============================================================================
