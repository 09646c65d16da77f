------------------------------- MODULE Cubic --------------------------------
(* Polynomials of degree at most three given by their factors (C24): a lead, linear factors q x - r (as    *)
(* <<q, r>>), and possibly a quadratic factor without real roots. Coefficients are listed lowest first.    *)
EXTENDS Integers, Sequences, FiniteSets
Coef(p, i) == IF i >= 0 /\ i < Len(p) THEN p[i + 1] ELSE 0
Times(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
  LET s[i \in 0..k] == IF i = 0 THEN 0 ELSE s[i - 1] + Coef(p, i - 1) * Coef(q, k - i) IN s[k]]
RECURSIVE Product(_)
Product(fs) == IF fs = <<>> THEN <<1>> ELSE Times(<<-fs[1][2], fs[1][1]>>, Product(Tail(fs)))
Expand(lead, fs, quad) == LET p == Times(<<lead>>, Times(Product(fs), IF quad = <<>> THEN <<1>> ELSE quad))
                          IN [i \in 1..4 |-> Coef(p, i - 1)]
NoRealRoot(quad) == quad = <<>> \/ quad[2] * quad[2] - 4 * quad[1] * quad[3] < 0
SameRoot(f, g) == f[1] * g[2] = g[1] * f[2]
Simple(fs) == \A i, j \in 1..Len(fs) : i < j => ~SameRoot(fs[i], fs[j])
(* How many roots have to be returned: 4 stands for all numbers.                                         *)
Count(lead, fs) == IF lead = 0 THEN 4 ELSE Len(fs)
=============================================================================
