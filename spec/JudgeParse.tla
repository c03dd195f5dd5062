----------------------------- MODULE JudgeParse -----------------------------
(* Judges recorded readings of unit text. A case:                             *)
(*   t: the text   r: "ok", or the name of what was raised                    *)
(*   o: the canonical text returned (if ok)                                   *)
(*   p: the canonical text of o in turn                                       *)
EXTENDS Semantics, Judging

Cases == ndJsonDeserialize(IOEnv.CASES)

\* (a zero may lose its sign)
RECURSIVE HasZero(_)
HasZero(n) ==
  CASE n.op = "num" -> NumScale(n.x).sg = 0
    [] n.op = "shift" -> NumScale(n.x).sg = 0 \/ HasZero(n.l)
    [] n.op \in {"empty", "id", "error"} -> FALSE
    [] n.op \in {"mul", "div"} -> HasZero(n.l) \/ HasZero(n.r)
    [] OTHER -> HasZero(n.l)

\* Texts of more operations or brackets than may be represented.
Great(t) ==
  LET ts == Lex(Strip(t))
  IN Len(ts) > 100 \/ Cardinality({ i \in 1..Len(ts) : ts[i].t \in {"OPEN", "LOG"} }) > 25

Clauses(c) ==
  LET n == Parse(c.t)
      out == Parse(c.o)
  IN IF n = Error
       THEN IF c.r = "ok" THEN {"accepts-invalid-text"}
            ELSE IF c.r # "SyntaxError" THEN {"wrong-error"} ELSE {}
     ELSE IF c.r # "ok" THEN IF c.r = "SyntaxError" /\ Great(c.t) THEN {}
                             ELSE {"rejects-valid-text"}
     ELSE IF n.op = "empty" THEN IF c.o = <<>> THEN {} ELSE {"meaning"}
     ELSE IF out = Error THEN {"unreadable-canonical-text"}
     ELSE (IF Canon(out) = Canon(n) THEN {} ELSE {"meaning"})
          \cup (IF c.p = c.o \/ HasZero(out) THEN {} ELSE {"not-idempotent"})

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge == l < 0 \/ Verdict(l, Clauses(Cases[l]))
=============================================================================
