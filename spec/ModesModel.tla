------------------------------ MODULE ModesModel ------------------------------
(***************************************************************************)
(* The strict and the permissive machine side by side, over every run of   *)
(* the strict machine within the bounds of ProtoGen: the permissive one    *)
(* follows, accepts what the strict one accepts, and builds the same tree. *)
(***************************************************************************)
EXTENDS ProtoGen

VARIABLE sp

Perm == [P |-> TRUE, B |-> FALSE]
Both0 == Init /\ sp = ParseInit(FileStart)
Both == \E m \in Menu :
  LET s2 == Step(cfg, st, Tok(m)) IN
  /\ s2.ok /\ Within(s2)
  /\ st' = s2 /\ toks' = Append(toks, m.s) /\ sp' = Step(Perm, sp, Tok(m))

RECURSIVE Kernel(_)
Kernel(n) == [k |-> n.k, at |-> n.at, opts |-> n.opts,
   body |-> LET s == SelectSeq(n.body, LAMBDA x : x.k # "empty") IN [j \in 1..Len(s) |-> Kernel(s[j])],
   xb |-> [j \in 1..Len(n.xb) |-> Kernel(n.xb[j])]]
Close2 == LET c == Complete(st)
              a == Step(cfg, Feed(st, c), Eof)
              b == Step(Perm, FoldLeft(LAMBDA x, m : Step(Perm, x, Tok(m)), sp, c), Eof)
          IN sp.ok /\ Sentence(a) /\ Sentence(b) /\ Kernel(a.ns[1]) = Kernel(b.ns[1])
View2 == <<View, sp.cs>>
===============================================================================
