----------------------------- MODULE IsolationGen -----------------------------
(***************************************************************************)
(* Several parses in one process, each of which asks its reader for data a *)
(* number of times.  A behaviour is an interleaving of these reads: which  *)
(* parse gets on, step by step, from the state of all of them.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
K == atoi(IOEnv.K)        \* parses
R == atoi(IOEnv.R)        \* reads of each, the end included
VARIABLES left, sched
Init == left = [p \in 1..K |-> R] /\ sched = <<>>
Turn(p) == left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1] /\ sched' = Append(sched, p - 1)
Next == \E p \in 1..K : Turn(p)
Emit == (\E p \in 1..K : left[p] > 0) \/ PrintT(<<"DOC", ToJson(sched)>>)
===============================================================================
