------------------------------- MODULE ProtoGen -------------------------------
(***************************************************************************)
(* Documents from the specification.  The behaviours of this module are    *)
(* the runs of the grammar machine over tokens of a menu.  Two runs that   *)
(* lead to the same configuration (control stack and what else decides how *)
(* it goes on) are the same state, see View, so that TLC visits every      *)
(* configuration within the bounds once, with a shortest run to it.        *)
(*                                                                         *)
(* At every configuration, for every token of the menu, a document is      *)
(* emitted that leads there, continues with the token, and is completed to *)
(* a sentence if it still can become one:                                  *)
(*    "step"  run, token, completion behind the token (or, if the token    *)
(*            is wrong, completion as if it were not there)                *)
(*    "skip"  run, completion behind the token, without the token          *)
(*    "swap"  run, a wrong token, completion behind a right one            *)
(*    "omit"  run, completion as if up to three constructs were there that *)
(*            are not, at the configuration or behind a token that is right *)
(*    "sub"   run, a wrong token in place of a construct, completion       *)
(* Verdict is what the machine makes of the whole document.                *)
(***************************************************************************)
EXTENDS ProtoGrammar, Json, IOUtils, FiniteSets

Permissive == IOEnv.PERMISSIVE = "1"
Nest == atoi(IOEnv.NEST)      \* nesting of blocks and of constants
Swap == IOEnv.SWAP = "1"
cfg == [P |-> Permissive, B |-> FALSE]

VARIABLES toks, st
vars == <<toks, st>>

\* -------------------------------------------------------------------- menu
W(s) == [k |-> "id", s |-> s]
Pn(s) == [k |-> "p", s |-> s]
Menu ==
  { W(s) : s \in {"a", "G", "group", "repeated", "optional", "int32", "string", "double", "map", "oneof", "message",
       "enum", "option", "reserved", "extensions", "extend", "rpc", "returns", "stream", "service",
       "import", "public", "package", "syntax", "edition", "to", "max", "true", "inf",
       "declaration", "number", "full_name", "type", "repeated", "weak", "bool"} }
  \cup { Pn(s) : s \in Puncts \cup {"-"} }
  \cup { [k |-> "unk", s |-> "+"], [k |-> "unk", s |-> "@"], [k |-> "bom", s |-> "BOM"], [k |-> "bad", s |-> "0x"],
         [k |-> "int", s |-> "1"], [k |-> "flt", s |-> "1.5"], [k |-> "str", s |-> "\"s\""],
         [k |-> "str", s |-> "'proto3'"], [k |-> "str", s |-> "\"2023\""] }
Tok(m) == [k |-> m.k, s |-> m.s, p |-> NoPos, e |-> 0, c |-> <<>>]
Eof == Tok([k |-> "eof", s |-> ""])

\* -------------------------------------------------------------- completion
A == W("a")
One == [k |-> "int", s |-> "1"]
Str == [k |-> "str", s |-> "\"s\""]
Short(s, X) ==
  CASE X \in Puncts -> <<Pn(X)>>
    [] X \in {"name", "ident+", "msgtype", "type", "rname", "oname"} -> <<A>>
    [] X \in {"int", "sint", "sint1", "range", "rangeend", "reserved", "const", "number"} -> <<One>>
    [] X = "str" -> <<Str>>
    [] X = "keytype" -> <<W("int32")>>
    [] X = "returns" -> <<W("returns")>>
    [] X = "version" -> << [k |-> "str", s |-> "'proto3'"] >>
    [] X = "edition" -> << [k |-> "str", s |-> "\"2023\""] >>
    [] X \in {"group?", "rpcbody"} -> <<Pn(";")>>
    [] X = "group!" -> <<Pn("{"), Pn("}")>>
    [] X = "decl" -> <<W("declaration"), Pn("="), Pn("{"), Pn("}")>>
    [] X \in {"decls", "opts", "list0", "list"} -> <<Pn("]")>>
    [] X \in {"entries", "agg0", "agg,"} -> <<Pn("}")>>
    [] X = "entry1" -> <<W("number"), Pn(":"), One>>
    [] X = "entryval" -> IF EntryIx(s.nm) = 1 THEN <<One>>
                         ELSE IF EntryIx(s.nm) \in {2, 3} THEN <<Str>> ELSE <<W("true")>>
    [] X = "option" -> <<A, Pn("="), One>>
    [] X = "o)" -> <<Pn(")")>>
    [] X = "agg" -> <<A, Pn(":"), One, Pn("}")>>
    [] X = "agg:" -> <<Pn(":"), One, Pn("}")>>
    [] X = "aggval" -> <<One, Pn("}")>>
    [] OTHER -> <<>>
CompleteFrom(s, i) == FlattenSeq([j \in 1..(Len(s.cs) - i + 1) |-> Short(s, s.cs[i + j - 1])])
Complete(s) == CompleteFrom(s, 1)
Least(a, b) == IF a < b THEN a ELSE b

Feed(s, ms) == FoldLeft(LAMBDA x, m : Step(cfg, x, Tok(m)), s, ms)
Ends(s, ms) == Sentence(Step(cfg, Feed(s, ms), Eof))

\* ------------------------------------------------------------------ bounds
CountIn(S, seq) == Cardinality({ j \in 1..Len(seq) : seq[j] \in S })
Within(s) ==
  /\ CountIn({"message*"}, s.cs) <= Nest
  /\ CountIn({"list", "agg,", "list0", "agg0", "agg"}, s.cs) <= Nest
  /\ CountIn({"oneof*", "extend*", "enum*", "rpc*"}, s.cs) <= 1
  /\ CountIn({"enum*", "extend*"}, s.cs) = 0 \/ CountIn({"message*"}, s.cs) <= 1
  /\ Len(Top(s).opts) <= 1 /\ Len(s.ns) <= Nest + 4

\* What decides how a configuration goes on.
GroupLike(n) == n.k = "field" /\ Len(n.at) >= 2 /\ n.at[2] = "group"
View == <<st.cs, Top(st).k, IF GroupLike(Top(st)) THEN SubSeq(Top(st).at, 2, 3) ELSE <<>>,
          Top(st).opts # <<>>,
          IF st.cs # <<>> /\ st.cs[1] = ":" /\ EntryIx(st.nm) # 0 THEN st.nm ELSE "">>

\* -------------------------------------------------------------------- runs
Init == toks = <<>> /\ st = ParseInit(FileStart)

Next == \E m \in Menu :
  LET s2 == Step(cfg, st, Tok(m)) IN
  /\ s2.ok /\ Within(s2)
  /\ st' = s2 /\ toks' = Append(toks, m.s)

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- emission
Spell(ms) == [j \in 1..Len(ms) |-> ms[j].s]
Out(kind, ms, ok) == PrintT(<<"DOC", kind, ok, ToJson(toks \o Spell(ms))>>)
After(m) == Step(cfg, st, Tok(m))
Emit ==
  LET here == Complete(st)
      good == { m \in Menu : After(m).ok }
      bad  == Menu \ good
  IN
  /\ Ends(st, here)                                  \* the completion is one
  /\ \A m \in good :
       LET c == Complete(After(m)) IN
       /\ Ends(st, <<m>> \o c)
       /\ Out("step", <<m>> \o c, TRUE)
       /\ Out("skip", c, Ends(st, c))
       /\ \A j \in 1..Least(3, Len(After(m).cs)) :
            LET d == <<m>> \o CompleteFrom(After(m), j + 1) IN Out("omit", d, Ends(st, d))
       /\ Swap => \A b \in bad : Out("swap", <<b>> \o c, Ends(st, <<b>> \o c))
  /\ \A b \in bad : Out("step", <<b>> \o here, Ends(st, <<b>> \o here))
  /\ \A j \in 1..Least(3, Len(st.cs)) :
       LET c == CompleteFrom(st, j + 1) IN
       /\ Out("omit", c, Ends(st, c))
       /\ (Swap /\ j = 1) => \A b \in bad : Out("sub", <<b>> \o c, Ends(st, <<b>> \o c))
===============================================================================
