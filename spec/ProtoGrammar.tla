----------------------------- MODULE ProtoGrammar -----------------------------
(***************************************************************************)
(* The syntax of .proto files and the tree they denote, as a pushdown      *)
(* machine over tokens (see ProtoLex for tokens).                          *)
(*                                                                         *)
(* The state is a record st:                                               *)
(*   cs    control stack: what is still to come, a sequence of symbols     *)
(*   ns    the open nodes of the tree, innermost last; ns[1] is the file   *)
(*   acc   the text of the name, type or constant being read               *)
(*   nm    the name of the option being read                               *)
(*   q     the quote of the string being merged                            *)
(*   lead  comments in front of the token being looked at, not yet placed  *)
(*   last  position of the last consumed token, le the offset behind it    *)
(*   em/emb whether comments are being collected for an rpc, and those     *)
(*   ok    FALSE once the input can no longer become a sentence            *)
(*   fp    then, the position of the token that made it so, fe the last     *)
(*         offset at which the error may be seen                           *)
(*                                                                         *)
(* A symbol of the control stack is a terminal to match, a non-terminal to *)
(* expand by looking at the next token, or an action on the tree.  Step    *)
(* consumes exactly one token.                                             *)
(*                                                                         *)
(* cfg.P  permissive: the extensions of the documented grammar (an         *)
(*        optional ";" behind a block, adjacent string literals, aggregate *)
(*        and list constants, "(." in option names)                        *)
(* cfg.B  comments that belong to no statement are kept in the body        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

LOCAL Front1(s) == SubSeq(s, 1, Len(s) - 1)

\* ------------------------------------------------------------------- nodes
\* k    kind
\* at   its texts (names, types, numbers, constants), fixed order per kind
\* opts options in square brackets, pairs <<name, constant>>
\* body child statements in source order
\* xb   children kept apart from the body (the options of a oneof or an rpc,
\*      the syntax and edition of a file)
\* pre  comments in front, inl the comment behind it on its last line (0 or
\*      1), lc the comment behind the opening bracket (0 or 1), emb comments
\*      inside the head of an rpc
\* p, q position of the first and of the last token
Node(k, p, pre) == [k |-> k, at |-> <<>>, opts |-> <<>>, body |-> <<>>, xb |-> <<>>,
                    pre |-> pre, inl |-> <<>>, lc |-> <<>>, emb |-> <<>>, p |-> p, q |-> p]
NoPos == <<0, 0, 0>>
CNode(c) == [Node("comment", c.p, <<>>) EXCEPT !.at = <<c.r>>, !.q = c.q]

ParseInit(start) ==
  [cs |-> start, ns |-> <<Node("file", NoPos, <<>>)>>, acc |-> "", nm |-> "", q |-> "",
   lead |-> <<>>, last |-> <<0, 1, 0>>, le |-> 0, em |-> FALSE, emb |-> <<>>,
   ok |-> TRUE, fp |-> NoPos, fe |-> 0]

FileStart == <<"bom?", "syntax?", "edition?", "file*">>

Top(st) == st.ns[Len(st.ns)]
SetTop(st, n) == [st EXCEPT !.ns[Len(st.ns)] = n]

\* ------------------------------------------------------------------- words
Builtin == {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
            "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
KeyTypes == Builtin \ {"double", "float", "bytes"}
Labels == {"repeated", "required", "optional"}
Bools == {"true", "false"}
Special == {"inf", "nan"}
Puncts == {";", ":", "=", "(", ")", "{", "}", "[", "]", "<", ">", ",", "."}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P",
          "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Capital(s) == SubSeq(s, 1, 1) \in Upper
Unquote(s) == SubSeq(s, 2, Len(s) - 1)
IsDecimal(s) == s # "" /\ SubSeq(s, 1, 1) # "0" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits

\* Text x of a string literal that was quoted by the other quote, to be put
\* between quotes q: an unescaped q becomes escaped.
RECURSIVE Requote(_, _)
Requote(x, q) ==
  IF x = "" THEN ""
  ELSE LET h == SubSeq(x, 1, 1) IN
    IF h = "\\" /\ Len(x) > 1 THEN SubSeq(x, 1, 2) \o Requote(SubSeq(x, 3, Len(x)), q)
    ELSE (IF h = q THEN "\\" \o h ELSE h) \o Requote(SubSeq(x, 2, Len(x)), q)

\* A numeric escape at the end of a literal may have less digits than it could;
\* when the next literal begins with a digit, it is padded, so that it stays the
\* same character.
OctDigits == {"0", "1", "2", "3", "4", "5", "6", "7"}
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
RECURSIVE Slashes(_, _)
Slashes(s, i) == IF i < 1 \/ SubSeq(s, i, i) # "\\" THEN 0 ELSE 1 + Slashes(s, i - 1)
EscapeAt(s, i, C) == i > 1 /\ SubSeq(s, i, i) \in C /\ Slashes(s, i - 1) % 2 = 1
Pad(s, x) ==
  IF x = "" THEN s
  ELSE LET n == Len(s) h == SubSeq(x, 1, 1) z == SubSeq(s, n, n) IN
    CASE h \in OctDigits /\ EscapeAt(s, n, OctDigits) -> SubSeq(s, 1, n - 1) \o "00" \o z
      [] h \in OctDigits /\ z \in OctDigits /\ EscapeAt(s, n - 1, OctDigits) -> SubSeq(s, 1, n - 2) \o "0" \o SubSeq(s, n - 1, n)
      [] h \in HexDigits /\ z \in HexDigits /\ EscapeAt(s, n - 1, {"x", "X"}) -> SubSeq(s, 1, n - 1) \o "0" \o z
      [] OTHER -> s

\* ----------------------------------------------------------------- actions
Push(st, syms) == [st EXCEPT !.cs = syms \o @]
\* (Where no number can stand, the dot of a number like .5 is a token of its
\* own, and the digits behind it may be the ones that are wrong.)
Dead(st, t) == [st EXCEPT !.ok = FALSE, !.fp = t.p, !.cs = <<>>,
                          !.fe = t.p[1] + IF t.k \in {"flt", "bad"} /\ SubSeq(t.s, 1, 1) = "." THEN 1 ELSE 0]
\* The token t is consumed; comments in front of it that nobody placed are
\* dropped, but for those in the head of an rpc.
Eat(st, t) == [st EXCEPT !.last = t.p, !.le = t.e, !.lead = <<>>,
                         !.emb = IF st.em THEN @ \o st.lead ELSE @]
Acc(st, x) == [st EXCEPT !.acc = @ \o x]
\* Add the text x to the texts of the open node.
AddAt(st, x) == SetTop(st, [Top(st) EXCEPT !.at = Append(@, x)])
Flush(st) == [AddAt(st, st.acc) EXCEPT !.acc = ""]
OpenNode(st, k, t) == [st EXCEPT !.ns = Append(@, Node(k, t.p, st.lead)), !.lead = <<>>]
OpenBare(st, k, t) == [st EXCEPT !.ns = Append(@, Node(k, t.p, <<>>))]

\* The comment behind the last token on its line, if any: 0 or 1 comment.
Inline(st) == IF st.lead # <<>> /\ st.lead[1].p[2] = st.last[2] THEN <<st.lead[1]>> ELSE <<>>
DropInline(st) == IF Inline(st) = <<>> THEN st ELSE [st EXCEPT !.lead = Tail(@)]
\* Close the innermost node, which then belongs to the body (or xb) of the next.
Finish(st, inl, x) ==
  LET n == [Top(st) EXCEPT !.q = st.last, !.inl = inl]
      r == Front1(st.ns)
      m == r[Len(r)]
      m2 == IF x THEN [m EXCEPT !.xb = Append(@, n)] ELSE [m EXCEPT !.body = Append(@, n)]
  IN [st EXCEPT !.ns = Append(Front1(r), m2)]
\* Comments that belong to no statement.
Loose(cfg, st) ==
  IF ~cfg.B THEN [st EXCEPT !.lead = <<>>]
  ELSE [SetTop(st, [Top(st) EXCEPT !.body = @ \o [i \in 1..Len(st.lead) |-> CNode(st.lead[i])]])
          EXCEPT !.lead = <<>>]

\* ------------------------------------------------- statements of each block
\* What a statement that starts with token t is, in block X; "none" if it is
\* none.
FieldStart(t) == t.k = "id" \/ (t.k = "p" /\ t.s = ".")
StmtIn(X, t) ==
  CASE t.k = "p" /\ t.s = ";" -> "empty"
    [] X = "file*" ->
         IF t.k = "id" /\ t.s \in {"import", "package", "option", "message", "enum",
                                   "service", "extend"} THEN t.s ELSE "none"
    [] X = "message*" ->
         IF t.k = "id" /\ t.s \in {"enum", "message", "option", "oneof", "map", "extend",
                                   "reserved", "extensions"} THEN t.s
         ELSE IF FieldStart(t) THEN "field" ELSE "none"
    [] X = "enum*" ->
         IF t.k # "id" THEN "none"
         ELSE IF t.s \in {"option", "reserved"} THEN t.s ELSE "enumval"
    [] X = "oneof*" ->
         IF t.k = "id" /\ t.s = "option" THEN "ooption"
         ELSE IF FieldStart(t) THEN "ofield" ELSE "none"
    [] X = "extend*" -> IF FieldStart(t) THEN "efield" ELSE "none"
    [] X = "service*" ->
         IF t.k = "id" /\ t.s \in {"option", "rpc"} THEN t.s ELSE "none"
    [] X = "rpc*" -> IF t.k = "id" /\ t.s = "option" THEN "roption" ELSE "none"

Block(X) == <<"{", "lc", X, "}", ";?">>

\* The symbols that a statement of kind K stands for.
Stmt(K) ==
  CASE K = "import"     -> <<"open import", "kw", "modifier", "str", ";", "close">>
    [] K = "package"    -> <<"open package", "kw", "ident+", "dots", "flush", ";", "close">>
    [] K = "option"     -> <<"open option", "kw", "option", "at option", ";", "close">>
    [] K = "ooption"    -> <<"open option", "kw", "option", "at option", ";", "close x">>
    [] K = "roption"    -> <<"bare option", "kw", "option", "at option", ";", "close x-">>
    [] K = "message"    -> <<"open message", "kw", "name">> \o Block("message*") \o <<"close">>
    [] K = "enum"       -> <<"open enum", "kw", "name">> \o Block("enum*") \o <<"close">>
    [] K = "service"    -> <<"open service", "kw", "name">> \o Block("service*") \o <<"close">>
    [] K = "extend"     -> <<"open extend", "kw", "msgtype", "flush">> \o Block("extend*") \o <<"close">>
    [] K = "oneof"      -> <<"open oneof", "kw", "name">> \o Block("oneof*") \o <<"close">>
    [] K = "map"        -> <<"open map", "kw", "<", "keytype", ",", "type", "flush", ">", "name", "=",
                             "int", "[opts]", ";", "close">>
    [] K = "reserved"   -> <<"open reserved", "kw", "reserved", ";", "close">>
    [] K = "extensions" -> <<"open extensions", "kw", "range", "ranges", "[decls]", ";", "close">>
    [] K = "field"      -> <<"open field", "label", "type", "flush", "name", "=", "int", "group?">>
    [] K = "efield"     -> <<"open field", "label", "type", "flush", "name", "=", "int",
                             "[opts]", ";", "close">>
    [] K = "ofield"     -> <<"open ofield", "type", "flush", "name", "=", "int", "[opts]", ";", "close">>
    [] K = "enumval"    -> <<"open enumval", "name", "=", "sint", "[opts]", ";", "close">>
    [] K = "rpc"        -> <<"open rpc", "kw", "collect", "name", "(", "bare req", "stream", "msgtype",
                             "flush", ")", "close -", "returns", "(", "bare res", "stream", "msgtype",
                             "flush", ")", "close -", "rpcbody", "close">>
    [] K = "syntax"     -> <<"open syntax", "kw", "=", "version", ";", "close x">>
    [] K = "edition"    -> <<"open edition", "kw", "=", "edition", ";", "close x">>
    [] K = "group"      -> <<"open field", "label", "group", "gname", "=", "int", "group!">>
    [] K = "declaration"-> <<"open declaration", "kw", "=", "{", "lc", "entry", "entries", "close -">>

\* The texts of a declaration, by position: number, full name, type,
\* reserved, repeated.
DeclInit == <<"", "", "", "false", "false">>
EntryIx(s) == CASE s = "number" -> 1 [] s = "full_name" -> 2 [] s = "type" -> 3
                [] s = "reserved" -> 4 [] s = "repeated" -> 5 [] OTHER -> 0

\* -------------------------------------------------------------------- Step
\* One token.  Every branch either consumes t (the result then no longer
\* refers to t) or continues with a shorter or expanded control stack.
RECURSIVE Run(_, _, _)
Run(cfg, st0, t) ==
  IF st0.cs = <<>> THEN IF t.k = "eof" THEN st0 ELSE Dead(st0, t) ELSE
  LET X   == st0.cs[1]
      st  == [st0 EXCEPT !.cs = Tail(@)]
      is(s) == t.k = "p" /\ t.s = s
      id(s) == t.k = "id" /\ t.s = s
      go(s)  == Run(cfg, s, t)                      \* continue, t not consumed
      need(c, s) == IF c THEN Eat(s, t) ELSE Dead(st0, t)
  IN
  CASE X \in Puncts -> need(is(X), st)
    [] X = "kw" -> Eat(st, t)
    [] X = "stop" -> st0
    \* ---- the first token of a statement alone
    [] X \in {"first efield", "first group"} -> IF FieldStart(t) THEN go(st) ELSE Dead(st0, t)
    [] X \in {"first import", "first package", "first option", "first message", "first enum", "first service",
              "first extend", "first oneof", "first map", "first reserved", "first extensions", "first syntax",
              "first edition", "first declaration"} ->
         IF t.k = "id" /\ "first " \o t.s = X THEN go(st) ELSE Dead(st0, t)
    \* ---- blocks
    [] X \in {"file*", "message*", "enum*", "service*", "extend*", "oneof*", "rpc*"} ->
         IF (X = "file*" /\ t.k = "eof") THEN Loose(cfg, st)
         ELSE IF X # "file*" /\ is("}") THEN
           IF X \in {"oneof*", "rpc*"} THEN go([st EXCEPT !.lead = <<>>])
           ELSE go(Loose(cfg, st))
         ELSE LET K == StmtIn(X, t) IN
           IF K = "none" THEN Dead(st0, t)
           ELSE IF K = "empty" THEN
             IF X \in {"oneof*", "rpc*"} THEN Eat(Push(st, <<X>>), t)
             ELSE go(Push(Loose(cfg, st), <<"bare empty", ";", "close", X>>))
           ELSE IF X = "rpc*" THEN go(Push([st EXCEPT !.lead = <<>>], Stmt(K) \o <<X>>))
           ELSE go(Push(st, Stmt(K) \o <<X>>))
    [] X = "lc" ->
         go(SetTop(DropInline(st), [Top(st) EXCEPT !.lc = Inline(st)]))
    [] X = ";?" -> IF cfg.P /\ is(";") THEN Eat(st, t) ELSE go(st)
    \* ---- nodes
    [] X = "open import" -> go(OpenNode(st, "import", t))
    [] X = "open package" -> go(OpenNode(st, "package", t))
    [] X = "open option" -> go(OpenNode(st, "option", t))
    [] X = "open message" -> go(OpenNode(st, "message", t))
    [] X = "open enum" -> go(OpenNode(st, "enum", t))
    [] X = "open service" -> go(OpenNode(st, "service", t))
    [] X = "open extend" -> go(OpenNode(st, "extend", t))
    [] X = "open oneof" -> go(OpenNode(st, "oneof", t))
    [] X = "open map" -> go(OpenNode(st, "map", t))
    [] X = "open reserved" -> go(OpenNode(st, "reserved", t))
    [] X = "open extensions" -> go(OpenNode(st, "extensions", t))
    [] X = "open field" -> go(OpenNode(st, "field", t))
    [] X = "open ofield" -> go(OpenNode(st, "ofield", t))
    [] X = "open enumval" -> go(OpenNode(st, "enumval", t))
    [] X = "open rpc" -> go(OpenNode(st, "rpc", t))
    [] X = "open syntax" -> go(OpenNode(st, "syntax", t))
    [] X = "open edition" -> go(OpenNode(st, "edition", t))
    [] X = "open declaration" ->
         LET s == OpenNode(st, "declaration", t) IN go(SetTop(s, [Top(s) EXCEPT !.at = DeclInit]))
    [] X = "bare option" -> go(OpenBare(st, "option", t))
    [] X = "bare empty" -> go(OpenBare(st, "empty", t))
    [] X = "bare req" -> go(OpenBare(st, "req", [p |-> st.last]))
    [] X = "bare res" -> go(OpenBare(st, "res", [p |-> st.last]))
    [] X = "close" -> go(Finish(DropInline(st), Inline(st), FALSE))
    [] X = "close x" -> go(Finish(DropInline(st), Inline(st), TRUE))
    [] X = "close -" -> go(Finish(st, <<>>, FALSE))
    [] X = "close x-" -> go(Finish(st, <<>>, TRUE))
    \* ---- words
    [] X = "name" -> need(t.k = "id", AddAt(st, t.s))
    [] X = "group" -> need(id("group"), AddAt(st, t.s))
    [] X = "gname" -> need(t.k = "id" /\ Capital(t.s), AddAt(st, t.s))
    [] X = "int" -> need(t.k = "int", AddAt(st, t.s))
    [] X = "str" -> need(t.k = "str", AddAt(st, t.s))
    [] X = "sint" -> IF is("-") THEN Eat(Push(Acc(st, "-"), <<"sint1">>), t) ELSE go(Push(st, <<"sint1">>))
    [] X = "sint1" -> need(t.k = "int", Flush(Acc(st, t.s)))
    [] X = "flush" -> go(Flush(st))
    [] X = "ident+" -> need(t.k = "id", Acc(st, t.s))
    [] X = "dots" -> IF is(".") THEN Eat(Push(Acc(st, "."), <<"ident+", "dots">>), t) ELSE go(st)
    [] X = "msgtype" -> IF is(".") THEN Eat(Push(Acc(st, "."), <<"ident+", "dots">>), t)
                        ELSE go(Push(st, <<"ident+", "dots">>))
    [] X = "type" -> IF t.k = "id" /\ t.s \in Builtin THEN Eat(Acc(st, t.s), t)
                     ELSE go(Push(st, <<"msgtype">>))
    [] X = "keytype" -> need(t.k = "id" /\ t.s \in KeyTypes, AddAt(st, t.s))
    [] X = "label" -> IF t.k = "id" /\ t.s \in Labels THEN Eat(AddAt(st, t.s), t) ELSE go(AddAt(st, ""))
    [] X = "modifier" -> IF t.k = "id" /\ t.s \in {"public", "weak"} THEN Eat(AddAt(st, t.s), t)
                         ELSE go(AddAt(st, ""))
    [] X = "stream" -> IF id("stream") THEN Eat(AddAt(st, "stream"), t) ELSE go(AddAt(st, ""))
    [] X = "returns" -> need(id("returns"), st)
    [] X = "version" -> need(t.k = "str" /\ Unquote(t.s) \in {"proto2", "proto3"},
                             AddAt(AddAt(AddAt(st, Unquote(t.s)), t.s), IF Unquote(t.s) = "proto3" THEN "3" ELSE "2"))
    [] X = "edition" -> need(t.k = "str" /\ IsDecimal(Unquote(t.s)),
                             AddAt(AddAt(st, Unquote(t.s)), t.s))
    \* ---- the head of a file
    [] X = "bom?" -> IF t.k = "bom" THEN Eat(st, t) ELSE go(st)
    [] X = "syntax?" -> IF id("syntax") THEN go(Push(st, Stmt("syntax"))) ELSE go(st)
    [] X = "edition?" -> IF id("edition") THEN go(Push(st, Stmt("edition"))) ELSE go(st)
    \* ---- a field whose type is the word group and that has a body is a group
    [] X = "group?" ->
         LET a == Top(st).at IN
         IF is("{") /\ a[2] = "group" /\ Capital(a[3])
         THEN go(Push(SetTop(st, [Top(st) EXCEPT !.k = "group", !.at = <<a[1], a[3], a[4]>>]),
                      Block("message*") \o <<"close">>))
         ELSE go(Push(st, <<"[opts]", ";", "close">>))
    [] X = "group!" ->
         LET a == Top(st).at IN
         IF is("{") /\ a[2] = "group" /\ Capital(a[3])
         THEN go(Push(SetTop(st, [Top(st) EXCEPT !.k = "group", !.at = <<a[1], a[3], a[4]>>]),
                      Block("message*") \o <<"close">>))
         ELSE Dead(st0, t)
    \* ---- rpc
    [] X = "collect" -> go([st EXCEPT !.em = TRUE, !.emb = <<>>])
    [] X = "rpcbody" ->
         LET s == SetTop([st EXCEPT !.em = FALSE, !.emb = <<>>, !.lead = <<>>],
                         [Top(st) EXCEPT !.emb = st.emb \o st.lead]) IN
         IF is("{") THEN Eat(Push(s, <<"lc", "rpc*", "}", ";?">>), t)
         ELSE need(is(";"), s)
    \* ---- ranges and reserved names
    [] X = "range" -> need(t.k = "int", Push(AddAt(st, t.s), <<"to?">>))
    [] X = "to?" -> IF id("to") THEN Eat(Push(st, <<"rangeend">>), t) ELSE go(AddAt(st, ""))
    [] X = "rangeend" -> need(t.k = "int" \/ id("max"), AddAt(st, t.s))
    [] X = "ranges" -> IF is(",") THEN Eat(Push(st, <<"range", "ranges">>), t) ELSE go(st)
    [] X = "reserved" -> IF t.k = "int" THEN go(Push(AddAt(st, "ranges"), <<"range", "ranges">>))
                         ELSE go(Push(AddAt(st, "names"), <<"rname", "rnames">>))
    [] X = "rname" -> need(t.k \in {"id", "str"}, AddAt(st, t.s))
    [] X = "rnames" -> IF is(",") THEN Eat(Push(st, <<"rname", "rnames">>), t)
                       ELSE IF t.k \in {"id", "str"} THEN go(Push(st, <<"rname", "rnames">>))
                       ELSE go(st)
    \* ---- declarations of extension ranges
    [] X = "[decls]" -> IF is("[") THEN Eat(Push(st, <<"lc", "decl", "decls">>), t) ELSE go(st)
    [] X = "decl" -> IF id("declaration") THEN go(Push(st, Stmt("declaration"))) ELSE Dead(st0, t)
    [] X = "decls" -> IF is(",") THEN Eat(Push(st, <<"declinl", "decl", "decls">>), t)
                      ELSE need(is("]"), Push(st, <<"declinl">>))
    [] X = "declinl" ->
         LET n == Top(st)
         IN go(SetTop(DropInline(st), [n EXCEPT !.body[Len(n.body)].inl = Inline(st)]))
    [] X = "entry" -> \* commas between the entries are optional, one may stand in front
         IF is("}") THEN go(st)
         ELSE IF is(",") THEN Eat(Push(st, <<"entry1">>), t)
         ELSE go(Push(st, <<"entry1">>))
    [] X = "entry1" ->
         IF t.k = "id" /\ EntryIx(t.s) # 0
         THEN Eat(Push([st EXCEPT !.nm = t.s], <<":", "entryval">>), t)
         ELSE Dead(st0, t)
    [] X = "entries" -> IF is("}") THEN Eat(st, t) ELSE go(Push(st, <<"entry", "entries">>))
    [] X = "entryval" ->
         LET ix == EntryIx(st.nm) IN
         need(CASE ix = 1 -> t.k = "int" [] ix \in {2, 3} -> t.k = "str"
                [] OTHER -> t.k = "id" /\ t.s \in Bools,
              [SetTop(st, [Top(st) EXCEPT !.at[ix] = t.s]) EXCEPT !.nm = ""])
    \* ---- options
    [] X = "option" -> go(Push(st, <<"oname", "onames", "nm", "=", "const">>))
    [] X = "at option" -> go([AddAt(AddAt(st, st.nm), st.acc) EXCEPT !.nm = "", !.acc = ""])
    [] X = "[opts]" -> IF is("[") THEN Eat(Push(st, <<"option", "opt", "opts">>), t) ELSE go(st)
    [] X = "opt" -> go([SetTop(st, [Top(st) EXCEPT !.opts = Append(@, <<st.nm, st.acc>>)])
                          EXCEPT !.nm = "", !.acc = ""])
    [] X = "opts" -> IF is(",") THEN Eat(Push(st, <<"option", "opt", "opts">>), t) ELSE need(is("]"), st)
    [] X = "oname" ->
         IF t.k = "id" THEN Eat(Acc(st, t.s), t)
         ELSE need(is("("), Push(Acc(st, "("), <<"(.", "ident+", "dots", "o)">>))
    [] X = "(." -> IF cfg.P /\ is(".") THEN Eat(Acc(st, "."), t) ELSE go(st)
    [] X = "o)" -> need(is(")"), Acc(st, ")"))
    [] X = "onames" -> IF is(".") THEN Eat(Push(Acc(st, "."), <<"oname", "onames">>), t) ELSE go(st)
    [] X = "nm" -> go([st EXCEPT !.nm = st.acc, !.acc = ""])
    \* ---- constants
    [] X = "const" ->
         CASE t.k = "str" ->
                IF cfg.P THEN Eat(Push([Acc(st, SubSeq(t.s, 1, Len(t.s) - 1)) EXCEPT
                                          !.q = SubSeq(t.s, 1, 1)], <<"str+">>), t)
                ELSE Eat(Acc(st, t.s), t)
           [] t.k \in {"int", "flt"} -> Eat(Acc(st, t.s), t)
           [] t.k = "id" -> IF t.s \in Bools \/ t.s \in Special THEN Eat(Acc(st, t.s), t)
                            ELSE Eat(Push(Acc(st, t.s), <<"dots">>), t)
           [] (t.k = "p" /\ t.s = "-") \/ (t.k = "unk" /\ t.s = "+") ->
                Eat(Push(Acc(st, t.s), <<"number">>), t)
           [] cfg.P /\ is("{") -> Eat(Push(Acc(st, "{"), <<"agg0">>), t)
           [] cfg.P /\ is("[") -> Eat(Push(Acc(st, "["), <<"list0">>), t)
           [] OTHER -> Dead(st0, t)
    [] X = "number" -> need(t.k \in {"int", "flt"} \/ (t.k = "id" /\ t.s \in Special), Acc(st, t.s))
    [] X = "str+" ->
         IF t.k = "str"
         THEN LET b == Unquote(t.s)
                  x == IF SubSeq(t.s, 1, 1) = st.q THEN b ELSE Requote(b, st.q)
              IN Eat(Push([st EXCEPT !.acc = Pad(@, x) \o x], <<"str+">>), t)
         ELSE go([Acc(st, st.q) EXCEPT !.q = ""])
    [] X = "list0" -> IF is("]") THEN Eat(Acc(st, "]"), t) ELSE go(Push(st, <<"const", "list">>))
    [] X = "list" -> IF is(",") THEN Eat(Push(Acc(st, ","), <<"const", "list">>), t)
                     ELSE need(is("]"), Acc(st, "]"))
    [] X = "agg0" -> IF is("}") THEN Eat(Acc(st, "}"), t) ELSE go(Push(st, <<"agg">>))
    [] X = "agg" -> need(t.k = "id", Push(Acc(st, t.s), <<"agg:">>))
    [] X = "agg:" -> IF is(":") THEN Eat(Push(Acc(st, ":"), <<"aggval">>), t)
                     ELSE IF is("{") THEN go(Push(st, <<"const", "agg,">>)) ELSE Dead(st0, t)
    [] X = "aggval" -> IF is("{") THEN go(Push(st, <<"const", "agg;", "agg,">>))
                       ELSE go(Push(st, <<"const", "agg,">>))
    [] X = "agg;" -> IF is(";") THEN Eat(Acc(st, ";"), t) ELSE go(st)
    [] X = "agg," -> IF is(",") \/ is(";") THEN Eat(Push(Acc(st, t.s), <<"agg0">>), t)
                     ELSE IF is("}") THEN Eat(Acc(st, "}"), t)
                     ELSE go(Push(Acc(st, "\n"), <<"agg">>))

Step(cfg, st, t) == IF ~st.ok THEN st ELSE Run(cfg, [st EXCEPT !.lead = t.c], t)

\* The tokens read, the end of the input included, are a sentence.  (A machine
\* that was started with Single stops behind one statement instead, whatever
\* follows.)
Sentence(st) == st.ok /\ st.cs \in {<<>>, <<"stop">>}

\* One statement of kind K alone, with the comments around it.
Single(K) == <<"first " \o K>> \o Stmt(K) \o <<"stop">>
===============================================================================
