------------------------------- MODULE ProtoLex -------------------------------
(***************************************************************************)
(* The lexical level of the .proto format, as a character-driven machine.  *)
(*                                                                         *)
(* A document is a record d with                                           *)
(*    d.s   the text, a TLA+ string (UTF-16 units, as TLC holds it)        *)
(*    d.cp  the same text as a sequence of Unicode code points             *)
(*                                                                         *)
(* The state of the machine is a record l; Feed(d, M, l, i) is its one     *)
(* transition, consuming the i-th code point.  Lexing a document folds     *)
(* Feed over it and ends with Close.                                       *)
(*                                                                         *)
(* M is the set of token families that the reader asks for, a subset of    *)
(* {"str", "num", "cmt"}.  Without "str" a quote is a one-character token, *)
(* without "num" a digit is a one-character unknown token and a dot is a   *)
(* symbol, without "cmt" comments are passed over (they are attached to    *)
(* the token behind them, so that nothing is lost).  The grammar needs     *)
(* only AllModes; the push-back machine of LexStream uses all of them.     *)
(*                                                                         *)
(* Tokens are records                                                      *)
(*    k  "id" | "int" | "flt" | "str" | "p" (one of Puncts) | "qt" | "bom" *)
(*       | "cmt" | "unk" (a character that starts no token)                *)
(*       | "bad" (a malformed literal or comment) | "eof"                  *)
(*    s  its text                                                          *)
(*    p  the position of its first character <<offset, line, column>>      *)
(*    e  the byte offset behind its last character                         *)
(*    c  the comments in front of it, each [r, p, q]: raw text, position   *)
(*       of the first and of the last character                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

AllModes == {"str", "num"}

\* --------------------------------------------------------- character classes
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
IsDigit(c) == c >= 48 /\ c <= 57
IsOct(c)   == c >= 48 /\ c <= 55
IsHex(c)   == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsWS(c)    == c = 32 \/ (c >= 9 /\ c <= 13) \/ (c > 127 /\
                ( c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                  \/ (c >= 8192 /\ c <= 8202) ))
NL == 10   DQ == 34   SQ == 39   BS == 92   SL == 47   ST == 42   DOT == 46
IsQuote(c) == c = DQ \/ c = SQ
BOM == 65279
\* ; : = ( ) { } [ ] < > , . -  and + (which is unknown to the scanner as a
\* token, and only meant as the sign of a number)
PunctCodes == {59, 58, 61, 40, 41, 123, 125, 91, 93, 60, 62, 44, 46, 45}
PlusCode == 43
IsE(c) == c = 101 \/ c = 69
IsX(c) == c = 120 \/ c = 88

ByteLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Units(c)   == IF c < 65536 THEN 1 ELSE 2

\* ------------------------------------------------------------------- state
\* m   mode: "gap" between tokens, otherwise what is being read
\* a   index of the first UTF-16 unit of the current token, sp its position
\* u   index of the next unit; o, ln, cl the position of the next character
\* lb  byte length of the last character
\* cs  comments since the last token; tk the tokens read
LexInit == [m |-> "gap", a |-> 1, sp |-> <<0, 1, 1>>, u |-> 1, o |-> 0, ln |-> 1,
            cl |-> 1, lb |-> 0, cs |-> <<>>, tk |-> <<>>]

\* A document may be the end of a longer text: d.base is where it begins.
Begin(d) == IF "base" \notin DOMAIN d THEN LexInit
            ELSE [LexInit EXCEPT !.o = d.base[1], !.ln = d.base[2], !.cl = d.base[3]]

\* Restart in the middle of a document (for the push-back machine).
LexAt(u, pos) == [LexInit EXCEPT !.u = u, !.a = u, !.sp = pos, !.o = pos[1],
                                 !.ln = pos[2], !.cl = pos[3]]

Adv(l, c) ==
  IF c = NL
  THEN [l EXCEPT !.u = @ + 1, !.o = @ + 1, !.ln = @ + 1, !.cl = 1, !.lb = 1]
  ELSE LET b == ByteLen(c) IN
       [l EXCEPT !.u = @ + Units(c), !.o = @ + b, !.cl = @ + 1, !.lb = b]

Txt(d, l) == SubSeq(d.s, l.a, l.u - 1)

\* The token that ends in front of the next character.
Emit(d, l, k) ==
  [l EXCEPT !.m = "gap", !.cs = <<>>,
            !.tk = Append(@, [k |-> k, s |-> Txt(d, l), p |-> l.sp, e |-> l.o, c |-> l.cs])]

\* A comment that ends in front of the next character.
EmitCmt(d, M, l) ==
  IF "cmt" \in M THEN Emit(d, l, "cmt") ELSE
  [l EXCEPT !.m = "gap",
            !.cs = Append(@, [r |-> Txt(d, l), p |-> l.sp, q |-> <<l.o - l.lb, l.ln, l.cl - 1>>])]

\* Nothing behind a malformed literal matters: no sentence contains one.
Bad(d, l) == [Emit(d, l, "bad") EXCEPT !.m = "dead"]

\* The first character of a token (or white space).
Start(d, M, l, c) ==
  IF IsWS(c) THEN Adv(l, c)
  ELSE LET s == [Adv(l, c) EXCEPT !.a = l.u, !.sp = <<l.o, l.ln, l.cl>>] IN
    IF IsAlpha(c) THEN [s EXCEPT !.m = "id"]
    ELSE IF IsDigit(c) THEN
      IF "num" \in M THEN [s EXCEPT !.m = IF c = 48 THEN "zero" ELSE "dec"] ELSE Emit(d, s, "unk")
    ELSE IF c = DOT /\ "num" \in M THEN [s EXCEPT !.m = "dot"]
    ELSE IF IsQuote(c) THEN
      IF "str" \in M THEN [s EXCEPT !.m = IF c = DQ THEN "dq" ELSE "sq"] ELSE Emit(d, s, "qt")
    ELSE IF c = SL THEN [s EXCEPT !.m = "sl"]
    ELSE IF c \in PunctCodes THEN Emit(d, s, "p")
    ELSE IF c = BOM THEN Emit(d, s, "bom")
    ELSE Emit(d, s, "unk")

InStr(d, l, c, quote) ==
  IF c = quote THEN Emit(d, Adv(l, c), "str")
  ELSE IF c = NL \/ c = 0 THEN Bad(d, l)
  ELSE IF c = BS THEN [Adv(l, c) EXCEPT !.m = IF quote = DQ THEN "dqe" ELSE "sqe"]
  ELSE [Adv(l, c) EXCEPT !.m = IF quote = DQ THEN "dq" ELSE "sq"]

InEsc(d, l, c, quote) ==
  IF c = BS \/ IsQuote(c)
  THEN [Adv(l, c) EXCEPT !.m = IF quote = DQ THEN "dq" ELSE "sq"]
  ELSE InStr(d, l, c, quote)

\* One code point.
Feed(d, M, l, i) ==
  LET c == d.cp[i]
      m == l.m
      End(k) == Start(d, M, Emit(d, l, k), c)
      Go(n)  == [Adv(l, c) EXCEPT !.m = n]
  IN
  CASE m = "gap"  -> Start(d, M, l, c)
    [] m = "id"   -> IF IsAlpha(c) \/ IsDigit(c) THEN Adv(l, c) ELSE End("id")
    [] m = "dq"   -> InStr(d, l, c, DQ)
    [] m = "sq"   -> InStr(d, l, c, SQ)
    [] m = "dqe"  -> InEsc(d, l, c, DQ)
    [] m = "sqe"  -> InEsc(d, l, c, SQ)
    [] m = "lc"   -> IF c = NL THEN Start(d, M, EmitCmt(d, M, l), c) ELSE Adv(l, c)
    [] m = "bc"   -> IF c = ST THEN Go("bcs") ELSE Adv(l, c)
    [] m = "bcs"  -> IF c = SL THEN EmitCmt(d, M, Adv(l, c))
                     ELSE IF c = ST THEN Adv(l, c) ELSE Go("bc")
    [] m = "dec"  -> IF IsDigit(c) THEN Adv(l, c)
                     ELSE IF c = DOT THEN Go("frac") ELSE IF IsE(c) THEN Go("exp0") ELSE End("int")
    [] m = "zero" -> IF IsX(c) THEN Go("hex0")
                     ELSE IF c = DOT THEN Go("frac") ELSE IF IsE(c) THEN Go("exp0")
                     ELSE IF IsOct(c) THEN Go("oct") ELSE End("int")
    [] m = "oct"  -> IF IsOct(c) THEN Adv(l, c) ELSE End("int")
    [] m = "hex0" -> IF IsHex(c) THEN Go("hex") ELSE Bad(d, l)
    [] m = "hex"  -> IF IsHex(c) THEN Adv(l, c) ELSE End("int")
    [] m = "dot"  -> IF IsDigit(c) THEN Go("frac") ELSE End("p")
    [] m = "frac" -> IF IsDigit(c) THEN Adv(l, c) ELSE IF IsE(c) THEN Go("exp0") ELSE End("flt")
    [] m = "exp0" -> IF c \in {43, 45} THEN Go("exp1") ELSE IF IsDigit(c) THEN Go("exp") ELSE Bad(d, l)
    [] m = "exp1" -> IF IsDigit(c) THEN Go("exp") ELSE Bad(d, l)
    [] m = "exp"  -> IF IsDigit(c) THEN Adv(l, c) ELSE End("flt")
    [] m = "sl"   -> IF c = SL THEN Go("lc") ELSE IF c = ST THEN Go("bc") ELSE Bad(d, l)
    [] m = "dead" -> l

\* The end of the input.
Close(d, M, l) ==
  LET m == l.m
      f == CASE m \in {"gap", "dead"} -> l
             [] m = "id" -> Emit(d, l, "id")
             [] m = "lc" -> EmitCmt(d, M, l)
             [] m \in {"dec", "zero", "oct", "hex"} -> Emit(d, l, "int")
             [] m \in {"frac", "exp"} -> Emit(d, l, "flt")
             [] m = "dot" -> Emit(d, l, "p")
             [] OTHER -> Bad(d, l)
  IN Append(f.tk, [k |-> "eof", s |-> "", p |-> <<f.o, f.ln, f.cl>>, e |-> f.o, c |-> f.cs])

\* The tokens of a document.
Tokens(d) == Close(d, AllModes,
                   FoldLeft(LAMBDA l, i : Feed(d, AllModes, l, i), Begin(d),
                            [i \in 1..Len(d.cp) |-> i]))
===============================================================================
