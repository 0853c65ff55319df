------------------------------- MODULE Delivery -------------------------------
(***************************************************************************)
(* Judges what became of a delivery.  Without a fault, the text is judged  *)
(* as a whole, see ProtoTrace, whatever the delivery was.  With a fault    *)
(* there is an error, the reader's own unless what it delivered is already *)
(* malformed.                                                              *)
(***************************************************************************)
EXTENDS ProtoTrace

\* No continuation of the text before the fault is a sentence: the machine is
\* dead before it sees its last token (which may have been cut) or the end.
Malformed(r) ==
  LET tk == Tokens(r)
      n == Len(tk)
      cut == SubSeq(tk, 1, IF n >= 2 THEN n - 2 ELSE 0)
      s == FoldLeft(LAMBDA x, t : Step(Cfg(r), x, t), ParseInit(FileStart), cut)
      last == IF n >= 2 THEN tk[n - 1].k = "bad" ELSE FALSE
  IN ~s.ok \/ last

\* The verdict over the text does not depend on the last token being whole if
\* white space or a bracket ends it; a cut last token may yet be completed.
LastDead(r) ==
  LET tk == Tokens(r)
      s == FoldLeft(LAMBDA x, t : Step(Cfg(r), x, t), ParseInit(FileStart), SubSeq(tk, 1, Len(tk) - 1))
  IN ~s.ok

JudgeFault(r) ==
  (IF r.out = "error" THEN {} ELSE {"fault"})
  \cup (IF r.out # "error" \/ r.x.isfault \/ Malformed(r) \/ LastDead(r) THEN {} ELSE {"notfault"})
JudgeWhole(r) ==
  Findings(r, Behaviour(r))
  \cup (IF r.out = r.x.whole.out /\ r.t = r.x.whole.t /\ r.ep = r.x.whole.ep THEN {} ELSE {"delivery"})
DeliveryNext ==
  /\ v = "recorded" /\ i' = i
  /\ LET r == Recs[i]
         f == IF r.faulty THEN JudgeFault(r) ELSE JudgeWhole(r) IN
     v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", r.id, f>>) THEN "bad" ELSE "bad"
===============================================================================
