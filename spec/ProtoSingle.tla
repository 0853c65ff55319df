------------------------------ MODULE ProtoSingle ------------------------------
(***************************************************************************)
(* One statement parsed alone: as ProtoTrace, and what is left unread      *)
(* begins behind the statement and its inline comment.                     *)
(***************************************************************************)
EXTENDS ProtoTrace

RECURSIVE Until(_, _, _, _)
\* The machine in front of the first token that it leaves alone, and that token.
Until(cfg, s, tk, j) ==
  IF j > Len(tk) THEN <<s, j>>
  ELSE LET s2 == Step(cfg, s, tk[j]) IN
    IF ~s2.ok \/ s2.cs = <<"stop">> THEN <<s2, j>> ELSE Until(cfg, s2, tk, j + 1)

\* Bytes of the text in front of a unit.
Bytes(d) == FoldLeft(LAMBDA b, c : b + ByteLen(c), 0, d.cp)
RawBytes(d, c) == \* of comment c, which is a part of d
  FoldLeft(LAMBDA l, j : IF l.o >= c.p[1] /\ l.u < 1 + Len(c.r) THEN [o |-> l.o + ByteLen(d.cp[j]), u |-> l.u + Units(d.cp[j]), b |-> l.b + ByteLen(d.cp[j])]
                         ELSE [l EXCEPT !.o = @ + ByteLen(d.cp[j])],
           [o |-> 0, u |-> 1, b |-> 0], [j \in 1..Len(d.cp) |-> j]).b

Rest(r) ==
  IF r.x.rest = -1 THEN {} ELSE
  LET tk == Tokens(r)
      u == Until(Cfg(r), ParseInit(Start0(r)), tk, 1)
      s == u[1] t == tk[u[2]]
      n == IF s.ns[1].xb # <<>> THEN s.ns[1].xb[1] ELSE s.ns[1].body[1]
      left == IF n.inl # <<>> THEN Tail(t.c) ELSE t.c
      from == IF n.inl # <<>> THEN n.inl[1].p[1] + RawBytes(r, n.inl[1]) ELSE s.le
      to == IF left # <<>> THEN left[1].p[1] ELSE t.p[1]
      at == Bytes(r) - r.x.rest
  IN IF from <= at /\ at <= to THEN {} ELSE {"rest"}

SingleNext ==
  /\ v = "recorded" /\ i' = i
  /\ LET r == Recs[i]
         s == Behaviour(r)
         f == Findings(r, s)
         g == IF f = {} /\ r.ok THEN Rest(r) ELSE f
     IN v' = IF g = {} THEN "ok" ELSE
        IF PrintT(<<"MISMATCH", r.id, g, ToJson([ok |-> Sentence(s), t |-> IF Sentence(s) THEN Tree(s) ELSE <<>>])>>)
        THEN "bad" ELSE "bad"
===============================================================================
