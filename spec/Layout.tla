-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* Two documents with the same tokens are the same document.  A record is  *)
(* a pair [a, b] of recorded executions; the lexer of the specification    *)
(* reads both texts, and if they are the same sequence of tokens, the two  *)
(* outcomes must be the same but for positions and comments.               *)
(***************************************************************************)
EXTENDS ProtoTrace

Words(d) == LET tk == Tokens(d) IN [j \in 1..Len(tk) |-> <<tk[j].k, tk[j].s>>]
Judge(r) ==
  IF Words(r.a) # Words(r.b) THEN {"unrelated"}
  ELSE IF r.a.out # r.b.out THEN {"out"}
  ELSE IF Shape(r.a.t) # Shape(r.b.t) \/ Consts(r.a.t) # Consts(r.b.t) THEN {"tree"} ELSE {}
LayoutNext == /\ v = "recorded" /\ i' = i
              /\ LET f == Judge(Recs[i]) IN
                 v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
