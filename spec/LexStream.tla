------------------------------- MODULE LexStream -------------------------------
(***************************************************************************)
(* The lexer as its users see it: a place in a text and operations that    *)
(* read the next token in some mode, look ahead, put back, and read        *)
(* composite things.  The state is                                         *)
(*   cur   the place: the lexer machine of ProtoLex restarted there (l)    *)
(*         and the index of the next code point (i)                        *)
(*   back  the place in front of the last read, to which UnNext returns    *)
(* Operations:                                                             *)
(*   N K Q S L D C  read a token: plain, keyword, keyword or string,       *)
(*                  string, literal, number, comment mode                  *)
(*   Jn       read n tokens, plainly                                       *)
(*   U        put the last read back        P, Pn  look n tokens ahead     *)
(*   Ttok     read the token if it is tok   Bmm..  read in modes mm.. and  *)
(*   F M E R0 R1 ;  composite reads                put all of it back      *)
(*   Z        whether the end is reached, asked of a parser                *)
(***************************************************************************)
EXTENDS ProtoLex, ProtoGrammar, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v

Families(m) == CASE m \in {"N", "K"} -> {} [] m \in {"Q", "S"} -> {"str"}
                 [] m = "L" -> {"str", "num"} [] m = "D" -> {"num"} [] m = "C" -> {"cmt"}
Keywords == {"syntax", "edition", "service", "rpc", "returns", "message", "extend", "import", "package",
  "option", "repeated", "required", "optional", "weak", "public", "oneof", "map", "reserved", "extensions",
  "number", "full_name", "type", "declaration", "enum", "stream", "group"}
Class(t, m) ==
  CASE t.k = "id" -> IF m = "L" /\ t.s \in Bools THEN "BOOL"
                     ELSE IF m \in {"L", "D"} /\ t.s \in Special THEN "FLOAT"
                     ELSE IF m \in {"K", "Q"} /\ t.s \in Keywords THEN t.s ELSE "IDENT"
    [] t.k = "int" -> "INT" [] t.k = "flt" -> "FLOAT" [] t.k = "str" -> "STR"
    [] t.k = "qt" -> "QUOTE" [] t.k = "bom" -> "BOM" [] t.k = "cmt" -> "COMMENT"
    [] t.k = "p" -> t.s [] t.k = "eof" -> "EOF" [] OTHER -> "ILLEGAL"

\* ------------------------------------------------------------------ places
Place0 == [l |-> LexInit, i |-> 1]
AtPos(c) == <<c.l.o, c.l.ln, c.l.cl>>
RECURSIVE MoveTo(_, _, _)
MoveTo(d, c, o) == IF c.l.o >= o THEN c ELSE MoveTo(d, [l |-> Adv(c.l, d.cp[c.i]), i |-> c.i + 1], o)
\* The next token at place c, in mode m: [t, c], c the place behind it.
RECURSIVE Find(_, _, _, _)
Find(d, M, l, j) ==
  IF l.tk # <<>> THEN l.tk[1]
  ELSE IF j > Len(d.cp) THEN Close(d, M, l)[1]
  ELSE Find(d, M, Feed(d, M, l, j), j + 1)
Read(d, c, m) ==
  LET t0 == Find(d, Families(m), LexAt(c.l.u, AtPos(c)), c.i)
      \* where numbers are read, a dot begins one
      t == IF "num" \in Families(m) /\ t0.k = "p" /\ t0.s = "." THEN [t0 EXCEPT !.k = "bad"] ELSE t0
      c1 == MoveTo(d, c, t.e)
      \* a line comment ends with its line feed
      c2 == IF t.k = "cmt" /\ SubSeq(t.s, 2, 2) = "/" /\ c1.i <= Len(d.cp)
            THEN MoveTo(d, c1, t.e + 1) ELSE c1
  IN [t |-> t, c |-> c2]
RawOf(d, c, c2) == SubSeq(d.s, c.l.u, c2.l.u - 1)

\* --------------------------------------------------------- composite reads
No(c) == [ok |-> FALSE, s |-> "", p |-> NoPos, c |-> c, e |-> FALSE]
Err(c) == [No(c) EXCEPT !.e = TRUE]
Yes(s, p, c) == [ok |-> TRUE, s |-> s, p |-> p, c |-> c, e |-> FALSE]
RECURSIVE Idents(_, _, _, _)
\* ident { "." ident }, with the text s in front
Idents(d, c, s, p) ==
  LET a == Read(d, c, "N") IN
  IF a.t.k = "bad" THEN Err(c)
  ELSE IF a.t.k # "id" THEN No(c)
  ELSE LET q == IF p = NoPos THEN a.t.p ELSE p
           b == Read(d, a.c, "N") IN
    IF b.t.k = "bad" THEN [Yes(s \o a.t.s, q, a.c) EXCEPT !.e = TRUE]
    ELSE IF b.t.k = "p" /\ b.t.s = "." THEN Idents(d, b.c, s \o a.t.s \o ".", q)
    ELSE Yes(s \o a.t.s, q, a.c)
FullIdent(d, c) == Idents(d, c, "", NoPos)
MsgType(d, c) ==
  LET a == Read(d, c, "N") IN
  IF a.t.k = "bad" THEN Err(c)
  ELSE IF a.t.k = "p" /\ a.t.s = "." THEN Idents(d, a.c, ".", a.t.p) ELSE Idents(d, c, "", NoPos)
RECURSIVE Strings(_, _, _, _, _)
Strings(d, c, s, q, p) ==
  LET a == Read(d, c, "L") IN
  IF a.t.k = "bad" THEN [Yes(s \o q, p, c) EXCEPT !.e = TRUE]
  ELSE IF a.t.k # "str" THEN Yes(s \o q, p, c)
  ELSE LET b == Unquote(a.t.s) x == IF SubSeq(a.t.s, 1, 1) = q THEN b ELSE Requote(b, q)
       IN Strings(d, a.c, Pad(s, x) \o x, q, p)
Constant(d, c, perm) ==
  LET a == Read(d, c, "L") t == a.t IN
  CASE t.k = "bad" -> Err(c)
    [] t.k = "str" -> IF perm THEN Strings(d, a.c, SubSeq(t.s, 1, Len(t.s) - 1), SubSeq(t.s, 1, 1), t.p)
                      ELSE Yes(t.s, t.p, a.c)
    [] t.k \in {"int", "flt"} -> Yes(t.s, t.p, a.c)
    [] t.k = "id" -> IF t.s \in Bools \cup Special THEN Yes(t.s, t.p, a.c) ELSE FullIdent(d, c)
    [] t.s \in {"-", "+"} ->
         LET b == Read(d, a.c, "L") IN
         IF b.t.k = "bad" THEN Err(c)
         ELSE IF b.t.k \in {"int", "flt"} \/ (b.t.k = "id" /\ b.t.s \in Special)
         THEN Yes(t.s \o b.t.s, t.p, b.c) ELSE No(c)
    [] OTHER -> No(c)

\* --------------------------------------------------------------- operations
RECURSIVE Ahead(_, _, _)
\* n plain reads: the last class, and whether one was malformed
Ahead(d, c, n) == LET a == Read(d, c, "N") IN
  IF a.t.k = "bad" THEN <<"ILLEGAL", TRUE>> ELSE IF n = 1 THEN <<Class(a.t, "N"), FALSE>> ELSE Ahead(d, a.c, n - 1)
RECURSIVE Reads(_, _, _, _)
Reads(d, c, ms, acc) ==
  IF ms = "" THEN <<acc, FALSE>>
  ELSE LET m == SubSeq(ms, 1, 1) a == Read(d, c, m) IN
    IF a.t.k = "bad" THEN <<acc, TRUE>>
    ELSE Reads(d, a.c, SubSeq(ms, 2, Len(ms)), Append(acc, Class(a.t, m) \o " " \o a.t.s))

\* n plain reads, one behind the other: what the last one delivers.
RECURSIVE Skip(_, _, _)
Skip(d, c, n) == LET r == Read(d, c, "N") IN IF r.t.k = "bad" \/ n = 1 THEN [t |-> r.t, c |-> r.c, b |-> c] ELSE Skip(d, r.c, n - 1)
Number(a) == CHOOSE n \in 1..99 : ToString(n) = a

\* The result of an operation: the place behind it, the place to which it can
\* be put back, whether the history ends here, and what is wrong with o.
Res(c, b, fin, wrong) == [c |-> c, b |-> b, fin |-> fin, wrong |-> wrong]
If(c, tag) == IF c THEN {} ELSE {tag}
Op(d, s, op, o) ==
  LET h == SubSeq(op, 1, 1) a == SubSeq(op, 2, Len(op)) c == s.c IN
  CASE h \in {"N", "K", "Q", "S", "L", "D", "C"} ->
         LET r == Read(d, c, h) IN
         IF r.t.k = "bad"
         THEN Res(c, c, TRUE, If(o.err /\ o.tok = "ILLEGAL" /\ o.pos = r.t.p, "malformed"))
         ELSE Res(r.c, c, FALSE,
                  If(~o.err, "error") \cup If(o.tok = Class(r.t, h), "token") \cup If(o.text = r.t.s, "text")
                  \cup If(o.pos = r.t.p, "position") \cup If(o.raw = RawOf(d, c, r.c), "raw"))
    [] h = "J" ->
         LET r == Skip(d, c, Number(a)) IN
         IF r.t.k = "bad" THEN Res(c, c, TRUE, If(o.err, "malformed"))
         ELSE Res(r.c, r.b, FALSE,
                  If(~o.err, "error") \cup If(o.tok = Class(r.t, "N"), "token") \cup If(o.text = r.t.s, "text")
                  \cup If(o.pos = r.t.p, "position") \cup If(o.raw = RawOf(d, r.b, r.c), "raw"))
    [] h = "U" -> Res(s.b, s.b, FALSE, {})
    [] h = "P" -> LET x == Ahead(d, c, IF a = "" THEN 1 ELSE Number(a)) IN
         Res(c, c, x[2], If(o.err = x[2], "error") \cup If(o.ret = x[1] \/ x[2], "ahead"))
    [] h = "T" -> LET r == Read(d, c, "N") yes == Class(r.t, "N") = a IN
         IF r.t.k = "bad" THEN Res(c, c, TRUE, If(o.err, "malformed"))
         ELSE Res(IF yes THEN r.c ELSE c, c, FALSE, If(o.ret = (IF yes THEN "consumed" ELSE ""), "consume"))
    [] h = "B" -> LET x == Reads(d, c, a, <<>>) IN
         Res(c, c, x[2], If(o.err = x[2], "error") \cup If(x[2] \/ o.rd = x[1], "ahead"))
    [] h = "Z" -> LET r == Read(d, c, "N") IN
         Res(c, c, r.t.k = "bad", If(o.err = (r.t.k = "bad"), "error") \cup If(r.t.k = "bad" \/ o.bad = (r.t.k # "eof"), "ahead"))
    [] h = ";" -> LET r == Read(d, c, "N") yes == r.t.k = "p" /\ r.t.s = ";" IN
         IF r.t.k = "bad" THEN Res(c, c, TRUE, If(o.err, "malformed"))
         ELSE Res(IF yes THEN r.c ELSE c, c, FALSE, If(o.bad = ~yes, "empty"))
    [] OTHER ->
         LET x == CASE h = "F" -> FullIdent(d, c) [] h \in {"M", "E"} -> MsgType(d, c)
                    [] h = "R" -> Constant(d, c, a = "1") IN
         IF x.e THEN Res(c, c, TRUE, If(o.err, "malformed"))
         ELSE IF ~x.ok THEN Res(c, c, TRUE, If(o.bad /\ ~o.err, "accepted"))
         ELSE Res(x.c, c, FALSE, If(~o.bad, "refused") \cup If(o.bad \/ (o.ret = x.s), "text")
                                 \cup If(o.bad \/ o.rp = x.p, "position"))

\* A history.
RECURSIVE History(_, _, _)
History(r, s, j) ==
  IF s.wrong # {} \/ s.fin \/ j > Len(r.x.ops) THEN s
  ELSE IF j > Len(r.x.obs) THEN [s EXCEPT !.wrong = {"short"}]
  ELSE History(r, Op(r, s, r.x.ops[j], r.x.obs[j]), j + 1)
Judge(r) == IF r.out # "result" THEN {"out"}
            ELSE History(r, Res(Place0, Place0, FALSE, {}), 1).wrong
Init == i \in 1..Len(Recs) /\ v = "recorded"
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
