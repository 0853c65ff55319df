--------------------------------- MODULE Inert ---------------------------------
(***************************************************************************)
(* Runs of one text under options that have no meaning for it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v
Init == i \in 1..Len(Recs) /\ v = "recorded"
Judge(r) ==
  UNION { LET x == r.x[j] IN
    (IF x.out = r.out /\ x.ok = r.ok /\ x.t = r.t THEN {} ELSE {"result"})
    \cup (IF x.ep = r.ep THEN {} ELSE {"errpos"})
    \cup (IF \A k \in 1..Len(x.names) : x.names[k] = x.name THEN {} ELSE {"name"})
    \cup (IF \A k \in 1..Len(x.shown) :
            x.shown[k].s = (IF x.name = "" THEN "<input>" ELSE x.name) \o ":" \o ToString(x.shown[k].l) \o ":" \o ToString(x.shown[k].c)
          THEN {} ELSE {"shown"})
    \cup (IF x.name = "" \/ Len(x.names) > 0 THEN {} ELSE {"noname"})
    : j \in 1..Len(r.x) }
  \cup (IF r.out \in {"result", "error"} THEN {} ELSE {"out"})
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
