------------------------------- MODULE GenText ------------------------------
(* Every text of exactly N characters over the alphabet AB.                                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE t
N == atoi(IOEnv.LEN)
Kind == IOEnv.AB
Alphabet == CASE Kind = "strings" -> {34, 92, 110, 10, 97}
              [] Kind = "numbers" -> {49, 46, 48, 45, 62, 97}
              [] OTHER -> {34, 49, 46, 45, 62, 97, 64, 10, 123}
GInit == t = <<>>
GNext == Len(t) < N /\ \E c \in Alphabet : t' = Append(t, c)
GSpec == GInit /\ [][GNext]_t
Emit == Len(t) = N => PrintT(ToJson(t))
=============================================================================
