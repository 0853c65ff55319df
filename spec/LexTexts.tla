------------------------------- MODULE LexTexts -------------------------------
(***************************************************************************)
(* All texts up to a length over an alphabet of characters that matter to  *)
(* the lexical level.  ALPHABET names the alphabet.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Max == atoi(IOEnv.MAX)
Alphabets ==
  [all     |-> {"a", "e", "x", "_", "0", "1", "8", ".", "-", "+", "\"", "'", "\\", "/", "*", "\n", " ", ";", "BOM", "@"},
   number  |-> {"0", "1", "7", "8", "e", "E", "x", "F", ".", "-", "+", "a", ";"},
   string  |-> {"\"", "'", "\\", "n", "x", "\n", " "},
   comment |-> {"/", "*", "\n", "a", " "}]
A == Alphabets[IOEnv.ALPHABET]
VARIABLE h
Init == h = <<>>
Next == Len(h) < Max /\ \E c \in A : h' = Append(h, c)
Emit == PrintT(<<"DOC", ToJson(h)>>)
===============================================================================
