------------------------------ MODULE BoxLaws ------------------------------
(* The box operations as the validator states them, against their meaning as point sets, for all boxes *)
(* on a small grid; and the orientation predicates against their symmetries.                           *)
EXTENDS Plane
CONSTANT K
VARIABLES a, b
R == 0..K
Boxes == {x \in R \X R \X R \X R : x[1] <= x[3] /\ x[2] <= x[4]}
Init == a \in Boxes /\ b \in Boxes
Spec == Init /\ [][FALSE]_<<a, b>>
Pts(x) == {p \in R \X R : x[1] <= p[1] /\ p[1] <= x[3] /\ x[2] <= p[2] /\ p[2] <= x[4]}
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
OverlapF == Max2(a[1], b[1]) <= Min2(a[3], b[3]) /\ Max2(a[2], b[2]) <= Min2(a[4], b[4])
Clip == <<Max2(a[1], b[1]), Max2(a[2], b[2]), Min2(a[3], b[3]), Min2(a[4], b[4])>>
Join == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
Overlaps == OverlapF <=> Pts(a) \cap Pts(b) # {}
Clips == OverlapF => Pts(Clip) = Pts(a) \cap Pts(b)
Joins == /\ Pts(a) \cup Pts(b) \subseteq Pts(Join)
         /\ \A c \in Boxes : Pts(a) \cup Pts(b) \subseteq Pts(c) => Pts(Join) \subseteq Pts(c)
A1 == <<a[1], a[2]>>
A2 == <<a[3], a[4]>>
B1 == <<b[1], b[2]>>
Laws == /\ Cross(A1, A2, B1) = Cross(A2, B1, A1) /\ Cross(A1, A2, B1) = -Cross(A2, A1, B1)
        /\ OnOpen(A1, A2, B1) = OnOpen(A2, A1, B1)
        /\ OnOpen(A1, A2, B1) => Turn(A1, A2, B1) = 0
=============================================================================
