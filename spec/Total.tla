--------------------------------- MODULE Total ---------------------------------
(***************************************************************************)
(* A call of the parser as a state machine: it begins, and ends with a     *)
(* tree or with an error.  There is no other end, and it does end.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, call

Ends == {"result", "error"}
Begin == i \in 1..Len(Recs) /\ call = "called"
\* What was observed at the end of the call must be one of its ends.
Observe == /\ call = "called" /\ i' = i
           /\ call' = IF Recs[i].out \in Ends THEN Recs[i].out
                      ELSE IF PrintT(<<"MISMATCH", Recs[i].id, {"out"}>>) THEN "stuck" ELSE "stuck"
===============================================================================
