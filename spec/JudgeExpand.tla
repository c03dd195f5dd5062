---------------------------- MODULE JudgeExpand -----------------------------
(* Judges recorded simplifications of product expressions. A case:            *)
(*   t: the text   r: "ok", or the name of what was raised                    *)
(*   o: the text of the simplified expression   again: simplified once more   *)
EXTENDS Semantics, Judging

Cases == ndJsonDeserialize(IOEnv.CASES)

\* The scale and the exponent of every identifier.
Scaled(c) ==
  LET D == { x \in DOMAIN c.m : x[1] = "n" }
      A == { x[2] : x \in D }
  IN [sg |-> c.sg, m |-> [a \in A |-> c.m[<<"n", a>>]]]
Exponents(c) == [x \in { y \in DOMAIN c.m : y[1] # "n" } |-> c.m[x]]

RECURSIVE Mentions(_)  \* the identifiers, one by one
Mentions(n) ==
  CASE n.op = "id" -> <<n.x>>
    [] n.op \in {"mul", "div"} -> Mentions(n.l) \o Mentions(n.r)
    [] n.op = "pow" -> Mentions(n.l)
    [] OTHER -> <<>>
RECURSIVE ZeroPower(_)
ZeroPower(n) ==
  CASE n.op = "pow" -> n.k = 0 \/ ZeroPower(n.l)
    [] n.op \in {"mul", "div"} -> ZeroPower(n.l) \/ ZeroPower(n.r)
    [] OTHER -> FALSE

Clauses(c) ==
  LET n == Parse(c.t)
      o == Parse(c.o)
      a == Canon(n)
      b == Canon(o)
      ids == Mentions(o)
  IN IF c.r # "ok" THEN {"raised"}
     ELSE IF o = Error THEN {"unreadable"}
     ELSE (IF SameScale(Scaled(a), Scaled(b)) THEN {} ELSE {"scale"})
          \cup (IF Exponents(a) = Exponents(b) \/ a.sg = 0 THEN {} ELSE {"exponents"})
          \cup (IF Cardinality({ ids[i] : i \in 1..Len(ids) }) = Len(ids) THEN {} ELSE {"repeated"})
          \cup (IF ZeroPower(o) THEN {"zero-exponent"} ELSE {})
          \cup (IF Canon(Parse(c.again)) = b THEN {} ELSE {"again"})

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge == l < 0 \/ Verdict(l, Clauses(Cases[l]))
=============================================================================
