------------------------------ MODULE LexHistory ------------------------------
(***************************************************************************)
(* All histories of lexer operations up to a length.  A read can be put    *)
(* back once, right behind it.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Max == atoi(IOEnv.MAX)
Ops == {"N", "K", "L", "C", "D", "U", "P", "P2", "P3", "T;", "BNL", "BCN", "BLKC", "Z"}
VARIABLE h
CanPutBack == h # <<>> /\ h[Len(h)] \in {"N", "K", "L", "C", "D"}
Init == h = <<>>
Next == Len(h) < Max /\ \E o \in Ops : (o = "U" => CanPutBack) /\ h' = Append(h, o)
Emit == Len(h) < Max \/ PrintT(<<"DOC", ToJson(h)>>)
===============================================================================
