------------------------------ MODULE DeliveryGen ------------------------------
(***************************************************************************)
(* A reader that delivers N bytes.  A behaviour is one way to do so:       *)
(* reads of any size, reads without data (at most E of them), the end with *)
(* the last data or after them, or a fault at any point, with or without   *)
(* data in the failing read, for ever or only once.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
E == atoi(IOEnv.E)
Faults == IOEnv.FAULTS = "1"
Kinds == {"plain", "unexpected", "closed", "wrapped", "short", "typed", "eoflike"}
Thens == {"again", "end", "resume"}  \* what comes of a further read
VARIABLES off,    \* bytes delivered
          reads,  \* sizes of the reads so far
          empties, end
vars == <<off, reads, empties, end>>
Init == off = 0 /\ reads = <<>> /\ empties = 0 /\ end = [how |-> "open"]
Data == \E n \in 1..(N - off) :
          off' = off + n /\ reads' = Append(reads, n) /\ UNCHANGED <<empties, end>>
Empty == empties < E /\ empties' = empties + 1 /\ reads' = Append(reads, 0) /\ UNCHANGED <<off, end>>
Finish == /\ ~Faults /\ off = N
          /\ end' \in { [how |-> "after"], [how |-> "joined"] }
          /\ UNCHANGED <<off, reads, empties>>
Fail == /\ Faults
        /\ \E how \in {"after", "joined"}, k \in Kinds, t \in Thens : end' = [how |-> how, fault |-> k, then |-> t]
        /\ UNCHANGED <<off, reads, empties>>
Open == end.how = "open"
Next == Open /\ (Data \/ Empty \/ Finish \/ Fail)
Spec == Init /\ [][Next]_vars
Emit == Open \/ PrintT(<<"DOC", ToJson([steps |-> reads, stop |-> off, end |-> end])>>)
===============================================================================
