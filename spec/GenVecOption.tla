---------------------------- MODULE GenVecOption ----------------------------
(* Generates VecOption histories as JSON. Two specifications:                                        *)
(*   GSpec  random behaviours, for TLC's simulation mode; arguments are drawn at random, every kind   *)
(*          of operation is offered in every step, growing ones several times.                       *)
(*   ASpec  every transition of the small model: any contents up to AllLen, then any one operation.  *)
EXTENDS VecOption, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
AllLen == atoi(IOEnv.ALLLEN)

R(S) == RandomElement(S)
RIdx == IF v # <<>> /\ R(1..8) > 1 THEN R(0..(Len(v) - 1)) ELSE R(0..MaxLen)
RBnd == R(0..(Len(v) + (IF R(1..6) = 1 THEN 2 ELSE 0)))
RSeq(S, n) == [i \in 1..R(0..n) |-> R(S)]
Take == IF R(1..2) = 1 THEN MaxLen + 1 ELSE R(0..(Len(v) + 1))
RandOp(k) ==
  CASE k \in {"new", "push_none", "pop", "pop_some", "compact", "compact_write", "some_into_vec",
              "clone_keep", "clone_drop", "views"} -> [ev |-> k]
    [] k \in {"with_capacity", "reserve", "repeat_none"} -> [ev |-> k, n |-> R(0..MaxLen)]
    [] k = "push" -> [ev |-> k, x |-> R(Opt)]
    [] k = "push_some" -> [ev |-> k, x |-> R(Items)]
    [] k \in {"replace", "set"} -> [ev |-> k, i |-> RIdx, x |-> R(Opt)]
    [] k \in {"replace_some", "set_some", "write"} -> [ev |-> k, i |-> RIdx, x |-> R(Items)]
    [] k \in {"replace_none", "set_none", "get_clone"} -> [ev |-> k, i |-> RIdx]
    [] k = "get" -> [ev |-> k, i |-> RIdx, how |-> R({"ref", "mut", "copy"})]
    [] k = "swap" -> [ev |-> k, a |-> RIdx, b |-> RIdx]
    [] k \in {"into_iter", "into_some_iter"} -> [ev |-> k, take |-> Take]
    [] k = "drain" -> LET a == RBnd  b == RBnd  ord == R(1..8) > 1 IN
         [ev |-> k, lk |-> R(0..2), lo |-> IF ord THEN Min2(a, b) ELSE a, hk |-> R(0..2),
          hi |-> IF ord THEN (IF a > b THEN a ELSE b) ELSE b, take |-> Take]
    [] k = "bump" -> [ev |-> k, how |-> R({"iter_mut", "some_index_mut", "get_mut", "runs_mut"})]
    [] k = "from_vec" -> [ev |-> k, xs |-> RSeq(Items, MaxLen)]
    [] k \in {"collect", "collect_blind"} -> [ev |-> k, xs |-> RSeq(Opt, MaxLen)]
    [] k \in {"extend", "extend_blind"} -> [ev |-> k, xs |-> RSeq(Opt, MaxLen - Len(v))]
Weight(k) == CASE k \in {"push", "push_some", "push_none", "extend", "extend_blind", "set", "replace", "swap"} -> 4
               [] k \in {"drain", "pop", "replace_none", "set_none", "views", "compact"} -> 3
               [] OTHER -> 1
Weighted == UNION {{<<k, i>> : i \in 1..Weight(k)} : k \in Known}

GInit == Init /\ hist = <<>>
GNext == \E w \in Weighted :
           LET op == RandOp(w[1]) IN
             /\ Len(Eff(op, v, 0).v) <= MaxLen
             /\ Do(op) /\ hist' = Append(hist, op)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) # Depth \/ PrintT(ToJson(hist))

AInit == /\ v \in UNION {[1..n -> Opt] : n \in 0..AllLen}
         /\ last = [ev |-> "init"] /\ hist = <<[ev |-> "collect", xs |-> v]>>
ANext == /\ Len(hist) = 1
         /\ \E op \in Ops : Do(op) /\ hist' = <<hist[1], op>>
ASpec == AInit /\ [][ANext]_<<vars, hist>>
AEmit == Len(hist) # 2 \/ PrintT(ToJson(hist))
=============================================================================
