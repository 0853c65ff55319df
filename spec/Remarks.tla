-------------------------------- MODULE Remarks --------------------------------
(***************************************************************************)
(* Comments and their lines.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v

Block(r) == SubSeq(r, 1, 2) = "/*"
Inner(r) == IF Block(r) THEN SubSeq(r, 3, Len(r) - 2) ELSE SubSeq(r, 3, Len(r))
Lines(s) == \* a machine that reads the text and begins a line at each line feed
  FoldLeft(LAMBDA ls, j : LET c == SubSeq(s, j, j) IN
             IF c = "\n" THEN Append(ls, "") ELSE [ls EXCEPT ![Len(ls)] = @ \o c],
           <<"">>, [j \in 1..Len(s) |-> j])
Good(x) == /\ SubSeq(x.r, 1, 2) \in {"//", "/*"}
           /\ x.c = Block(x.r) /\ x.lines = Lines(Inner(x.r))
Judge(r) == IF r.out \notin {"result", "error"} THEN {"out"}
            ELSE IF \A j \in 1..Len(r.x) : Good(r.x[j]) THEN {} ELSE {"lines"}
Init == i \in 1..Len(Recs) /\ v = "recorded"
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
