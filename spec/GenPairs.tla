------------------------------ MODULE GenPairs ------------------------------
(* Every sequence of keys up to a length (the values are numbered by position).                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE s
K == atoi(IOEnv.KEYS)
N == atoi(IOEnv.LEN)
GInit == s = <<>>
GNext == Len(s) < N /\ \E k \in 0..(K - 1) : s' = Append(s, k)
GSpec == GInit /\ [][GNext]_s
Emit == PrintT(ToJson(s))
=============================================================================
