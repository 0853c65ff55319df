------------------------------ MODULE ProtoTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions.  Each record of the input is one     *)
(* document given to the real parser together with what came of it; it is  *)
(* the initial state of one behaviour of the specification, which lexes    *)
(* the document, consumes it token by token, and in the end compares what  *)
(* the specification has built with what was recorded.                     *)
(***************************************************************************)
EXTENDS ProtoLex, ProtoGrammar, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)

VARIABLES i, v

Cfg(r) == [P |-> r.P, B |-> r.B]

\* ------------------------------------------------------------- projections
\* Comments that stand in a body as elements of their own are looked at apart
\* from the statements.
Stmts(ns) == SelectSeq(ns, LAMBDA x : x.k # "comment")
\* What the tree says (but for the constants of options).
RECURSIVE Shape(_)
Shape(n) == LET b == Stmts(n.body) IN
            [k |-> n.k, at |-> IF n.k = "option" THEN SubSeq(n.at, 1, 1) ELSE n.at,
             opts |-> [j \in 1..Len(n.opts) |-> n.opts[j][1]],
             body |-> [j \in 1..Len(b) |-> Shape(b[j])],
             xb |-> [j \in 1..Len(n.xb) |-> Shape(n.xb[j])]]
\* The constants, in their order.
RECURSIVE Consts(_)
Consts(n) == (IF n.k = "option" THEN SubSeq(n.at, 2, 2) ELSE <<>>)
             \o [j \in 1..Len(n.opts) |-> n.opts[j][2]]
             \o FlattenSeq([j \in 1..Len(n.body) |-> Consts(n.body[j])])
             \o FlattenSeq([j \in 1..Len(n.xb) |-> Consts(n.xb[j])])
\* The positions of the statements.
RECURSIVE Places(_)
Places(n) == LET b == Stmts(n.body) IN
             [p |-> n.p, q |-> n.q,
              body |-> [j \in 1..Len(b) |-> Places(b[j])],
              xb |-> [j \in 1..Len(n.xb) |-> Places(n.xb[j])]]
\* The comments of the statements, and where they are.
RECURSIVE Remarks(_, _)
Told(cs, what) == [j \in 1..Len(cs) |-> IF what = "text" THEN <<cs[j].r>> ELSE <<cs[j].p, cs[j].q>>]
Remarks(n, what) ==
  LET b == Stmts(n.body) IN
  [c |-> <<Told(n.pre, what), Told(n.inl, what), Told(n.lc, what), Told(n.emb, what)>>,
   body |-> [j \in 1..Len(b) |-> Remarks(b[j], what)],
   xb |-> [j \in 1..Len(n.xb) |-> Remarks(n.xb[j], what)]]
\* The comments in bodies, with their places among the statements.
RECURSIVE Loose1(_)
Loose1(n) == [c |-> SelectSeq([j \in 1..Len(n.body) |-> IF n.body[j].k = "comment" THEN <<j, n.body[j].at>> ELSE <<0>>],
                             LAMBDA x : x[1] # 0),
             body |-> LET b == Stmts(n.body) IN [j \in 1..Len(b) |-> Loose1(b[j])]]
\* All comments of a tree, with their positions.
RECURSIVE AllRemarks(_)
Spots(cs) == { <<cs[j].p, cs[j].q>> : j \in 1..Len(cs) }
AllRemarks(n) == Spots(n.pre) \cup Spots(n.inl) \cup Spots(n.lc) \cup Spots(n.emb)
                 \cup (IF n.k = "comment" THEN { <<n.p, n.q>> } ELSE {})
                 \cup UNION { AllRemarks(n.body[j]) : j \in 1..Len(n.body) }
                 \cup UNION { AllRemarks(n.xb[j]) : j \in 1..Len(n.xb) }
Written(tk) == UNION { Spots(tk[j].c) : j \in 1..Len(tk) }

\* The specification has no use for the position of an empty statement.
RECURSIVE Bare(_)
Bare(n) == [n EXCEPT !.p = IF n.k = "empty" THEN NoPos ELSE @, !.q = IF n.k = "empty" THEN NoPos ELSE @,
                     !.body = [j \in 1..Len(@) |-> Bare(@[j])],
                     !.xb = [j \in 1..Len(@) |-> Bare(@[j])]]

\* p is the position of a character of the text d, or of its end.
Consistent(d, p) ==
  LET l == FoldLeft(LAMBDA m, j : IF m.o >= p[1] THEN m ELSE Adv(m, d.cp[j]), Begin(d),
                    [j \in 1..Len(d.cp) |-> j])
  IN <<l.o, l.ln, l.cl>> = p

\* What the record says and the specification does not.
Tree(s) == Bare(s.ns[1])
Findings(r, s) ==
  LET ok == Sentence(s) IN
  IF r.out \notin {"result", "error"} THEN {"out"}
  ELSE IF r.ok /\ ~ok THEN {"unsound"}
  ELSE IF ~r.ok /\ ok THEN {"incomplete"}
  ELSE IF ~ok THEN
    \* the error lies between the end of the last good token and the start of
    \* the first bad one
    IF \/ r.ep[1] = -2
       \/ r.ep[1] >= s.le /\ r.ep[1] <= s.fe /\ Consistent(r, r.ep)
       \/ Begin(r).o > 0 /\ s.le = 0 /\ r.ep[1] < Begin(r).o  \* after what stands before the text
    THEN {} ELSE {"errpos"}
  ELSE LET t == Tree(s) IN
    IF r.t = t THEN {}
    ELSE LET same == Shape(r.t) = Shape(t)
             said == same /\ Remarks(r.t, "text") = Remarks(t, "text") IN
      (IF same THEN {} ELSE {"shape"})
      \cup (IF Consts(r.t) = Consts(t) THEN {} ELSE {"consts"})
      \cup (IF same /\ ~said THEN {"comments"} ELSE {})
      \cup (IF same /\ Loose1(r.t) # Loose1(t) THEN {"loose"} ELSE {})
      \cup (IF \/ same /\ Places(r.t) # Places(t)
               \/ said /\ Remarks(r.t, "place") # Remarks(t, "place")
               \/ ~(AllRemarks(r.t) \subseteq Written(Tokens(r)))
            THEN {"places"} ELSE {})

SingleKinds == {"syntax", "edition", "import", "package", "option", "message", "enum", "service", "extend", "oneof",
                "map", "reserved", "extensions", "efield", "group", "declaration"}
Start0(r) == IF r.op \in SingleKinds THEN Single(r.op) ELSE FileStart


Behaviour(r) == LET tk == Tokens(r) cfg == Cfg(r) IN FoldLeft(LAMBDA s, t : Step(cfg, s, t), ParseInit(Start0(r)), tk)
Init == i \in 1..N /\ v = "recorded"
Next == /\ v = "recorded" /\ i' = i
        /\ LET st == Behaviour(Recs[i])
               f == Findings(Recs[i], st) IN
            v' = IF f = {} THEN "ok"
            ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f,
                   ToJson([ok |-> Sentence(st), t |-> IF Sentence(st) THEN Tree(st) ELSE <<>>, fp |-> st.fp, le |-> st.le])>>) THEN "bad" ELSE "bad"
====
