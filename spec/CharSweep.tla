------------------------------ MODULE CharSweep ------------------------------
(***************************************************************************)
(* Every character in a context.  A record says what a history of reads    *)
(* gave on texts which differ in one character only; its rows are the      *)
(* ranges of characters with which the same happened.  The machine of the  *)
(* lexer knows what happens with the first of a range, and no boundary     *)
(* between its classes of characters lies within one.                      *)
(***************************************************************************)
EXTENDS LexStream

ClassOf(c) == <<IsAlpha(c), IsDigit(c), IsWS(c), c = BOM, ByteLen(c), Units(c)>>
\* Where classes begin, among the characters that are not ASCII.
Edges == { c \in (129..13000) \cup (65270..65290) \cup {65536} : ClassOf(c) # ClassOf(c - 1) }
Uniform(lo, hi) == \A e \in Edges : ~(lo < e /\ e <= hi)
RowWrong(r, w) ==
  History([s |-> w.s, cp |-> w.cp, x |-> [ops |-> r.x.ops, obs |-> w.obs]], Res(Place0, Place0, FALSE, {}), 1).wrong
  \cup (IF Uniform(w.lo, w.hi) THEN {} ELSE {"range"})
SweepJudge(r) == IF r.out # "result" THEN {"out"} ELSE UNION { RowWrong(r, r.x.rows[j]) : j \in 1..Len(r.x.rows) }
SweepNext == /\ v = "recorded" /\ i' = i
             /\ LET f == SweepJudge(Recs[i]) IN
                v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
