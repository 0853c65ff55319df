--------------------------------- MODULE Visit ---------------------------------
(***************************************************************************)
(* The walk of a visitor as a machine with a stack of what is still to be  *)
(* visited.  A step takes the top: an element is seen, and unless it is    *)
(* declined, what is below it comes next: its body, then its comments.     *)
(* Declined are the elements with the numbers (in the order in which they  *)
(* are seen) in a set D, so that a behaviour is determined by tree and D.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v

CEv(c) == [k |-> "comment", at |-> <<c.r>>, p |-> c.p, n |-> <<>>]
CEvs(cs) == [j \in 1..Len(cs) |-> CEv(cs[j])]
NEv(n) == [k |-> n.k, at |-> n.at, p |-> IF n.k = "empty" THEN <<0, 0, 0>> ELSE n.p, n |-> <<n>>]
NEvs(ns) == LET s == SelectSeq(ns, LAMBDA x : x.k \notin {"req", "res"}) IN [j \in 1..Len(s) |-> NEv(s[j])]

\* What is below an element, in order.
Below(n) == NEvs(n.body) \o NEvs(n.xb)
            \o CEvs(n.pre) \o CEvs(n.inl) \o CEvs(n.lc) \o CEvs(n.emb)
Start(t) == [todo |-> NEvs(t.xb) \o NEvs(t.body), n |-> 0, ev |-> <<>>]

See(s, D) ==
  LET x == Head(s.todo)
      e == [k |-> x.k, at |-> x.at, p |-> x.p]
      isel == x.n # <<>> /\ x.k # "comment"
      num == IF isel THEN s.n + 1 ELSE s.n
  IN [todo |-> (IF isel /\ num \notin D THEN Below(x.n[1]) ELSE <<>>) \o Tail(s.todo),
      n |-> num, ev |-> Append(s.ev, e)]
RECURSIVE Walk(_, _)
Walk(s, D) == IF s.todo = <<>> THEN s.ev ELSE Walk(See(s, D), D)

\* Whether two sequences of events are the same up to the order of the comments
\* below one element is not asked for: the order is part of the guarantee.
Judge(r) ==
  IF r.out \notin {"result", "error"} THEN {"out"}
  ELSE IF ~r.ok THEN {}
  ELSE IF \A j \in 1..Len(r.x) : LET D == {r.x[j].d[m] : m \in 1..Len(r.x[j].d)} IN
            r.x[j].ev = Walk(Start(r.t), D) /\ r.x[j].own
       THEN {} ELSE {"visits"}
Init == i \in 1..Len(Recs) /\ v = "recorded"
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
