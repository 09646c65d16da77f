------------------------------ MODULE TraceLib ------------------------------
(* What all trace specifications share: the recorded trace and the acceptance report.              *)
(* A trace is a file with one JSON event per line, recorded by /verif/harness from the real code.   *)
EXTENDS Json, IOUtils, TLC, Sequences, Integers, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Printed after the run; the driver compares the two numbers. One state per consumed event, and    *)
(* the initial state.                                                                               *)
Report == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)

SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)
Range(s) == {s[i] : i \in 1..Len(s)}
(* Equal as bags. (Without repetitions, which is quick to see, the sets decide.)                     *)
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ LET r == Range(s) IN IF Cardinality(r) = Len(s) THEN r = Range(t) ELSE SortInts(s) = SortInts(t)
Has(e, f) == f \in DOMAIN e
=============================================================================
