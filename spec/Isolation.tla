------------------------------- MODULE Isolation -------------------------------
(***************************************************************************)
(* Each parse is a process with a state of its own; the result of the      *)
(* product is the product of the results, and stays what it is.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v
Init == i \in 1..Len(Recs) /\ v = "recorded"
Eq(a, b) == a.out = b.out /\ a.ok = b.ok /\ a.t = b.t /\ a.ep = b.ep
Judge(r) ==
  IF r.out # "result" THEN {"out"} ELSE
  LET n == Len(r.x.solo) IN
  (IF \A j \in 1..n : Eq(r.x.res[j], r.x.solo[j]) THEN {} ELSE {"interference"})
  \cup (IF \A j \in 1..n : ~r.x.res[j].ok \/ r.x.after[j].t = r.x.res[j].t THEN {} ELSE {"changed"})
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
