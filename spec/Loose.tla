--------------------------------- MODULE Loose ---------------------------------
(***************************************************************************)
(* Comments that belong to no statement.  A record is a pair [a, b] of     *)
(* executions on one text, without (a) and with (b) the option to keep     *)
(* them.  The machine of the grammar says which comments of the text they  *)
(* are, and where among the statements of which body they stand.           *)
(***************************************************************************)
EXTENDS ProtoTrace

RECURSIVE NoLoose(_)
NoLoose(n) == [n EXCEPT
   !.body = LET s == Stmts(n.body) IN [j \in 1..Len(s) |-> NoLoose(s[j])],
   !.xb = [j \in 1..Len(@) |-> NoLoose(@[j])]]
RECURSIVE Has(_)
Has(n) == n.k = "comment" \/ \E j \in 1..Len(n.body) : Has(n.body[j])
\* The comments kept in a tree, in order, each by its position.
RECURSIVE Kept(_)
Kept(n) == FlattenSeq([j \in 1..Len(n.body) |-> IF n.body[j].k = "comment" THEN << <<n.body[j].at, n.body[j].p, n.body[j].q>> >>
                                                ELSE Kept(n.body[j])])
Judge(r) ==
  IF ~({r.a.out, r.b.out} \subseteq {"result", "error"}) THEN {"out"}
  ELSE IF r.a.ok # r.b.ok THEN {"verdict"}
  ELSE IF ~r.a.ok THEN {}
  ELSE LET s == Behaviour(r.b) IN
    (IF Has(r.a.t) THEN {"kept"} ELSE {})
    \cup (IF NoLoose(r.b.t) = r.a.t THEN {} ELSE {"different"})
    \cup (IF Sentence(s) /\ (Kept(r.b.t) # Kept(Tree(s)) \/ (Shape(r.b.t) = Shape(Tree(s)) /\ Loose1(r.b.t) # Loose1(Tree(s))))
          THEN {"loose"} ELSE {})
LooseNext == /\ v = "recorded" /\ i' = i
             /\ LET f == Judge(Recs[i]) IN
                v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
