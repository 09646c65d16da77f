---------------------------- MODULE GenObstacles ----------------------------
(* The obstacle pairs on which VisImpl is checked, as cases for the real code.                         *)
EXTENDS VisImpl, Json
Emit == Len(ps) = 2 /\ q = <<0, 0>> => PrintT(ToJson(ps))
=============================================================================
