------------------------------- MODULE Unordered -------------------------------
(***************************************************************************)
(* The unordered view: a machine that takes the statements of a body one   *)
(* by one and appends each to the list of its kind.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, v

Kinds(k) ==
  CASE k = "file" -> <<"head", "import", "package", "option", "message", "extend", "enum", "service", "empty">>
    [] k = "message" -> <<"field", "enum", "message", "option", "oneof", "map", "group", "reserved",
                          "extend", "empty", "extensions">>
    [] k = "enum" -> <<"option", "enumval", "reserved", "empty">>
    [] k = "service" -> <<"option", "rpc", "empty">>
    [] k = "extend" -> <<"field", "empty">>

\* Elements with a view of their own, in the body of a k.
Viewed(k, x) == x \in {"message", "enum"} \/ (k = "file" /\ x \in {"extend", "service"})

RECURSIVE Fits(_)
Fits(n) == \A j \in 1..Len(n.body) :
   /\ \E m \in 1..Len(Kinds(n.k)) : Kinds(n.k)[m] = n.body[j].k
   /\ Viewed(n.k, n.body[j].k) => Fits(n.body[j])

RECURSIVE View(_)
Take(ls, k, x) ==
  LET ks == Kinds(k)
      m == CHOOSE m \in 1..Len(ks) : ks[m] = x.k
  IN [ls EXCEPT ![m] = Append(@, IF Viewed(k, x.k) THEN [u |-> View(x)] ELSE [n |-> x])]
View(n) ==
  [k |-> n.k, at |-> n.at, pre |-> n.pre, inl |-> n.inl, lc |-> n.lc, p |-> n.p, q |-> n.q,
   lists |-> FoldLeft(LAMBDA ls, x : Take(ls, n.k, x),
                      IF n.k = "file" THEN [[m \in 1..Len(Kinds(n.k)) |-> <<>>] EXCEPT ![1] =
                                              [j \in 1..Len(n.xb) |-> [n |-> n.xb[j]]]]
                      ELSE [m \in 1..Len(Kinds(n.k)) |-> <<>>],
                      n.body)]

\* An element by itself is viewed as it is within the whole.
Part(x) == IF Fits(x.n) THEN x.out = "result" /\ x.u = View(x.n) ELSE x.out = "error"
Judge(r) ==
  IF r.out \notin {"result", "error"} THEN {"out"}
  ELSE IF ~r.ok THEN {}
  ELSE (IF r.x.same THEN {} ELSE {"changed"})
       \cup (IF r.x.own THEN {} ELSE {"copy"})
       \cup (IF \A j \in 1..Len(r.x.parts) : Part(r.x.parts[j]) THEN {} ELSE {"part"})
       \cup (IF Fits(r.t)
             THEN IF r.x.out # "result" THEN {"refused"}
                  ELSE IF r.x.u = View(r.t) THEN {} ELSE {"view"}
             ELSE IF r.x.out = "error" THEN {} ELSE {"lost"})
Init == i \in 1..Len(Recs) /\ v = "recorded"
Next == /\ v = "recorded" /\ i' = i
        /\ LET f == Judge(Recs[i]) IN
           v' = IF f = {} THEN "ok" ELSE IF PrintT(<<"MISMATCH", Recs[i].id, f>>) THEN "bad" ELSE "bad"
===============================================================================
