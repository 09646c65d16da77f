----------------------------- MODULE CubicImpl ------------------------------
(* solve3, shape of the code, in exact arithmetic: the degree is reduced while the leading coefficient is  *)
(* zero, and the discriminant decides how many roots there are. (With P = 9a^2 p and Q = 27a^3 q, the      *)
(* code's q^2 + 4p^3 is (Q^2 + 4P^3) / 729a^6.) Checked on all products of small factors.                  *)
(* Mode "ok" is the code; "sign" has the wrong sign in P; "low" does not reduce the degree twice.          *)
EXTENDS Cubic
CONSTANTS R, Q, Mode
VARIABLES lead, fs, quad, pc, deg, n
vars == <<lead, fs, quad, pc, deg, n>>
Init == lead = 0 /\ fs = <<>> /\ quad = <<>> /\ pc = "grow" /\ deg = 3 /\ n = -1
Quads == {<<1, 0, 1>>, <<2, 1, 1>>, <<1, -1, 1>>, <<5, 3, 2>>, <<1, 1, 3>>, <<1, 0, 4>>}
Grow == /\ pc = "grow" /\ lead = 0 /\ UNCHANGED <<lead, pc, deg, n>>
        /\ \/ Len(fs) + Len(quad) < 3 /\ \E q \in 1..Q, r \in (-R)..R : fs' = Append(fs, <<q, r>>) /\ UNCHANGED quad
           \/ Len(fs) <= 1 /\ quad = <<>> /\ quad' \in Quads /\ UNCHANGED fs
Start == pc = "grow" /\ lead' \in -1..1 /\ pc' = "solve" /\ UNCHANGED <<fs, quad, deg, n>>
Co == Expand(lead, fs, quad)
D == Co[1]  C == Co[2]  B == Co[3]  A == Co[4]
PP == IF Mode = "sign" THEN B * B - 3 * A * C ELSE 3 * A * C - B * B
QQ == 2 * B * B * B - 9 * A * B * C + 27 * A * A * D
Disc3 == QQ * QQ + 4 * PP * PP * PP
Disc2 == C * C - 4 * B * D
Reduce == /\ pc = "solve" /\ deg > 0 /\ Co[deg + 1] = 0 /\ ~(Mode = "low" /\ deg = 2)
          /\ deg' = deg - 1 /\ UNCHANGED <<lead, fs, quad, pc, n>>
Solve == /\ pc = "solve" /\ (deg = 0 \/ Co[deg + 1] # 0 \/ (Mode = "low" /\ deg = 2))
         /\ n' = CASE deg = 3 -> IF Disc3 > 0 THEN 1 ELSE 3
                   [] deg = 2 -> IF Disc2 < 0 THEN 0 ELSE IF Disc2 = 0 THEN 1 ELSE 2
                   [] deg = 1 -> 1
                   [] deg = 0 -> IF D = 0 THEN 4 ELSE 0
         /\ pc' = "done" /\ UNCHANGED <<lead, fs, quad, deg>>
Next == Grow \/ Start \/ Reduce \/ Solve
Spec == Init /\ [][Next]_vars
Correct == pc = "done" /\ (lead = 0 \/ Simple(fs)) => n = Count(lead, fs)
(* With a repeated root the number returned is of roots that exist: the discriminant is zero then.         *)
Repeated == pc = "done" /\ lead # 0 /\ ~Simple(fs) => IF deg = 3 THEN Disc3 = 0 ELSE Disc2 = 0
Factors == NoRealRoot(quad)
=============================================================================
