-------------------------------- MODULE Context --------------------------------
(***************************************************************************)
(* Statements and their contexts.  A record is a triple of executions: the *)
(* statements ss in a context of its own (a), and the same text in another *)
(* context (b), moved by some bytes, lines and, on its line d[4], columns.  Where they stand is told   *)
(* by a path: how many children to go down, and from which child on.       *)
(***************************************************************************)
EXTENDS ProtoTrace

MoveP(p, d) == IF p = NoPos THEN p ELSE <<p[1] + d[1], p[2] + d[2], IF p[2] = d[4] THEN p[3] + d[3] ELSE p[3]>>
MoveC(cs, d) == [j \in 1..Len(cs) |-> [cs[j] EXCEPT !.p = MoveP(@, d), !.q = MoveP(@, d)]]
RECURSIVE Move(_, _)
Move(n, d) == [n EXCEPT !.p = MoveP(@, d), !.q = MoveP(@, d), !.pre = MoveC(@, d), !.inl = MoveC(@, d),
                        !.lc = MoveC(@, d), !.emb = MoveC(@, d),
                        !.body = [j \in 1..Len(@) |-> Move(@[j], d)],
                        !.xb = [j \in 1..Len(@) |-> Move(@[j], d)]]
RECURSIVE Down(_, _)
Down(n, path) == IF path = <<>> THEN n
                 ELSE IF Head(path) \in 1..Len(n.body) THEN Down(n.body[Head(path)], Tail(path))
                 ELSE Node("lost", NoPos, <<>>)
\* The children of the place where the statements stand.
Part(t, w) == LET b == Down(t, w.path).body
                  e == IF w.count = -1 THEN Len(b) - w.last ELSE w.first + w.count - 1 IN
  IF w.first > Len(b) + 1 \/ e > Len(b) THEN <<Node("missing", NoPos, <<>>)>> ELSE SubSeq(b, w.first, e)
Judge(r) ==
  IF {r.a.out, r.b.out} \subseteq {"result", "error"}
  THEN IF r.a.ok # r.b.ok THEN {"verdict"}
       ELSE IF ~r.a.ok THEN {}
       ELSE LET x == Part(r.a.t, r.wa) y == Part(r.b.t, r.wb) IN
         IF y = [j \in 1..Len(x) |-> Move(x[j], r.d)] THEN {} ELSE {"context"}
  ELSE {"out"}
ContextNext == /\ v = "recorded" /\ i' = i
               /\ LET f == Judge(Recs[i]) IN
                  v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
