-------------------------------- MODULE Refusal --------------------------------
(***************************************************************************)
(* What an error says.  A record is a refused text with the parts of the   *)
(* error: what was found, where, what was expected, and how the position   *)
(* is written.  A machine passes over white space and comments from the    *)
(* position on; what was found must be what it stops at.                   *)
(***************************************************************************)
EXTENDS ProtoLex, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v

\* The index of the character at byte offset o, Len + 1 at the end, 0 if there is none.
IndexAt(cp, o) ==
  LET s == FoldLeft(LAMBDA m, j : IF m.at # 0 \/ m.o > o THEN m
                                  ELSE IF m.o = o THEN [m EXCEPT !.at = j]
                                  ELSE [m EXCEPT !.o = @ + ByteLen(cp[j])],
                    [o |-> 0, at |-> 0], [j \in 1..Len(cp) |-> j])
  IN IF s.at # 0 THEN s.at ELSE IF s.o = o THEN Len(cp) + 1 ELSE 0

\* The machine: blank, behind a slash, in a line comment, in a block, behind a
\* star in it; it stops at a character, or within a comment that has no end.
Pass(m, c, j) ==
  CASE m.m = "stop"  -> m
    [] m.m = "blank" -> IF IsWS(c) THEN m ELSE IF c = SL THEN [m EXCEPT !.m = "slash", !.at = j]
                        ELSE [m EXCEPT !.m = "stop", !.at = j]
    [] m.m = "slash" -> IF c = SL THEN [m EXCEPT !.m = "line"] ELSE IF c = ST THEN [m EXCEPT !.m = "block"]
                        ELSE [m EXCEPT !.m = "stop"]
    [] m.m = "line"  -> IF c = NL THEN [m EXCEPT !.m = "blank", !.at = 0] ELSE m
    [] m.m = "block" -> IF c = ST THEN [m EXCEPT !.m = "star"] ELSE m
    [] m.m = "star"  -> IF c = SL THEN [m EXCEPT !.m = "blank", !.at = 0]
                        ELSE IF c = ST THEN m ELSE [m EXCEPT !.m = "block"]
StopFrom(cp, b) ==
  LET s == FoldLeft(LAMBDA m, j : Pass(m, cp[j], j), [m |-> "blank", at |-> 0],
                    [j \in 1..(Len(cp) - b + 1) |-> b + j - 1])
  IN IF s.at = 0 \/ s.m = "line" THEN Len(cp) + 1 ELSE s.at

\* The text f stands at j and is no part of a word, a number or a literal only.
HasAt(cp, j, f) ==
  LET n == j + Len(f) - 1 IN
  /\ n <= Len(cp) /\ SubSeq(cp, j, n) = f
  /\ \/ Len(f) = 1 \/ n = Len(cp)
     \/ /\ IsAlpha(f[1]) => ~(IsAlpha(cp[n + 1]) \/ IsDigit(cp[n + 1]))
        /\ IsDigit(f[1]) => ~IsDigit(cp[n + 1])
        /\ IsQuote(f[1]) => f[Len(f)] = f[1]
\* Nothing was found at the end, or where a literal or a comment is malformed.
Nothing(cp, j) == j > Len(cp) \/ IsDigit(cp[j]) \/ IsQuote(cp[j]) \/ cp[j] \in {SL, DOT}
\* White space or a comment begins at j.
Blank(cp, j) == j <= Len(cp) /\ (IsWS(cp[j]) \/ (j < Len(cp) /\ cp[j] = SL /\ cp[j + 1] \in {SL, ST} /\ StopFrom(cp, j) # j))
Found(r, b) ==
  LET f == r.x.found j == StopFrom(r.cp, b) IN
  \/ f \in {<<>>, <<65533>>} /\ Nothing(r.cp, j)
  \/ f # <<>> /\ (HasAt(r.cp, j, f) \/ (~Blank(r.cp, b) /\ HasAt(r.cp, b, f)))
Shown(r) == (IF r.x.name = "" THEN "<input>" ELSE r.x.name) \o ":" \o ToString(r.ep[2]) \o ":" \o ToString(r.ep[3])

Judge(r) ==
  IF r.out \notin {"result", "error"} THEN {"out"}
  ELSE IF r.ok THEN {}
  ELSE IF ~r.x.have THEN {"nameless"}
  ELSE LET b == IndexAt(r.cp, r.ep[1]) IN
    (IF b # 0 /\ Found(r, b) THEN {} ELSE {"found"})
    \cup (IF r.x.pos = Shown(r) /\ (r.x.at = <<>> \/ r.x.at = <<Shown(r)>>) THEN {} ELSE {"shown"})
    \cup (IF r.x.expected > 0 /\ r.x.says THEN {} ELSE {"says"})

Init == i \in 1..Len(Recs) /\ v = "recorded"
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
