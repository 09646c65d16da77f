----------------------------- MODULE WedgeImpl ------------------------------
(* The arc of an elliptic wedge, shape of the code, in whole units of which Turn make a turn, and with a    *)
(* rounding error of up to one unit in each computed angle: how the two angles become an increasing pair,   *)
(* and how the arc is cut into pieces of at most a quarter.                                               *)
(* Mode "ok" is the code; "half" is the correction as it was, which takes a rounded half turn for a full     *)
(* one; "none" has no correction.                                                                         *)
EXTENDS Integers, Sequences
CONSTANTS Turn, Mode
VARIABLES l1, l2, a, b, len, n, pc
vars == <<l1, l2, a, b, len, n, pc>>
Half == Turn \div 2
Quarter == Turn \div 4
Wrap(x) == LET m == x % Turn IN IF m > Half THEN m - Turn ELSE m
Want == IF l2 - l1 = Turn THEN Turn ELSE (l2 - l1) % Turn
Init == /\ l1 \in (-Turn)..Turn /\ l2 \in {x \in (-2 * Turn)..(2 * Turn) : x - l1 >= -Turn /\ x - l1 <= Turn /\ (x - l1) % 10 = 0}
        /\ l1 % 10 = 0 /\ a = 0 /\ b = 0 /\ len = 0 /\ n = 0 /\ pc = "angles"
\* Equal angles are computed equally; so are those that differ by a turn, up to rounding.
Angles == /\ pc = "angles" /\ \E e, f \in -1..1 : (l1 = l2 => e = f) /\ a' = Wrap(l1) + e /\ b' = Wrap(l2) + f
          /\ pc' = "wrap" /\ UNCHANGED <<l1, l2, len, n>>
Fix == /\ pc = "wrap" /\ \E r \in -1..1 :      \* the rounding of the difference of the angles
            LET d == (b - a) % Turn
                corr == CASE Mode = "ok" -> l2 - l1 + r > Half /\ d < Quarter
                          [] Mode = "half" -> l2 - l1 + r > Half /\ d < Half
                          [] Mode = "none" -> FALSE
            IN len' = IF corr THEN d + Turn ELSE d
       /\ pc' = "cut" /\ n' = 1 /\ UNCHANGED <<l1, l2, a, b>>
Cut == /\ pc = "cut" /\ UNCHANGED <<l1, l2, a, b, len>>
       /\ IF len <= n * Quarter THEN pc' = "done" /\ n' = n ELSE pc' = "cut" /\ n' = 2 * n
Next == Angles \/ Fix \/ Cut
Spec == Init /\ [][Next]_vars
Correct == pc \in {"cut", "done"} => \/ len - Want \in -3..3
                                     \/ Want = 0 /\ len = Turn - 2 /\ l1 # l2
                                     \/ Want = 0 /\ l1 # l2 /\ len >= Turn - 3   \* a whole turn backwards: nothing, or all
Quarters == pc = "done" => len <= n * Quarter
=============================================================================
