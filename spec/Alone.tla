-------------------------------- MODULE Alone --------------------------------
(***************************************************************************)
(* A parse has no history: what it yields in a process of its own is what  *)
(* it yields behind any number of other parses and interpretations.  A     *)
(* record is the pair of both recorded executions.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v
Init == i \in 1..Len(Recs) /\ v = "recorded"
Judge(r) ==
  (IF {r.a.out, r.b.out} \subseteq {"result", "error"} THEN {} ELSE {"out"})
  \cup (IF /\ r.a.out = r.b.out /\ r.a.ok = r.b.ok /\ r.a.t = r.b.t
           /\ r.a.ep = r.b.ep /\ r.a.err = r.b.err THEN {} ELSE {"history"})
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
