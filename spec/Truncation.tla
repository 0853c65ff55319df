------------------------------ MODULE Truncation ------------------------------
(***************************************************************************)
(* What is left of a text that was cut short.  A record has besides its    *)
(* text: whole, whether the cut is between two characters (otherwise the   *)
(* last character of the text stands for the rest of the broken one, and   *)
(* only the verdict is looked at), and len, the number of its bytes.       *)
(***************************************************************************)
EXTENDS ProtoTrace

Judge(r) ==
  LET s == Behaviour(r) f == Findings(r, s) IN
  IF f \cap {"out", "unsound"} # {} THEN f
  ELSE IF r.ok THEN (IF r.whole THEN f \cap {"shape", "consts", "comments", "places", "loose"} ELSE {})
  ELSE \* an error, and not behind the end
    IF r.whole /\ r.ep[1] > r.len THEN {"behind"} ELSE {}
TruncationNext == /\ v = "recorded" /\ i' = i
                  /\ LET f == Judge(Recs[i]) IN
                     v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
