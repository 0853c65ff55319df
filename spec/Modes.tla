--------------------------------- MODULE Modes ---------------------------------
(***************************************************************************)
(* Strict and permissive parsing of one text.  A record holds executions   *)
(* a strict, b permissive, and c without options.                          *)
(***************************************************************************)
EXTENDS ProtoTrace

RECURSIVE NoEmpty(_)
NoEmpty(n) == [n EXCEPT
   !.body = LET s == SelectSeq(n.body, LAMBDA x : x.k # "empty") IN [j \in 1..Len(s) |-> NoEmpty(s[j])],
   !.xb = [j \in 1..Len(@) |-> NoEmpty(@[j])]]
Same(x, y) == Shape(NoEmpty(x)) = Shape(NoEmpty(y)) /\ Consts(NoEmpty(x)) = Consts(NoEmpty(y))

Judge(r) ==
  LET tk == Tokens(r.a)
      run(P) == FoldLeft(LAMBDA s, t : Step([P |-> P, B |-> FALSE], s, t), ParseInit(FileStart), tk)
  IN (IF r.a.ok /\ ~r.b.ok THEN {"narrower"} ELSE {})
     \cup (IF r.a.ok /\ r.b.ok /\ ~Same(r.a.t, r.b.t) THEN {"different"} ELSE {})
     \cup (IF r.a.ok /\ r.b.ok /\ Sentence(run(TRUE)) /\ ~Sentence(run(FALSE)) THEN {"extension"} ELSE {})
     \* where they have empty statements is told by the grammar
     \cup (IF \A m \in {"a", "b"} : LET s == run(m = "b") IN
                (r[m].ok /\ Sentence(s)) => Shape(r[m].t) = Shape(Tree(s))
            THEN {} ELSE {"empties"})
     \* permissive, without loose comments, is the default
     \cup (IF r.c.ok = r.b.ok /\ r.c.t = r.b.t /\ r.c.ep = r.b.ep THEN {} ELSE {"default"})
     \cup (IF {r.a.out, r.b.out} \subseteq {"result", "error"} THEN {} ELSE {"out"})
ModesNext == /\ v = "recorded" /\ i' = i
             /\ LET f == Judge(Recs[i]) IN
                v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
