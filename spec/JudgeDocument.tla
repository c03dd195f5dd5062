--------------------------- MODULE JudgeDocument ----------------------------
(* Judges recorded loading of unit documents. A case: doc: the document,      *)
(* strict: whether extra content is prohibited, r: "ok", or what was raised.  *)
EXTENDS Document, Judging

Cases == ndJsonDeserialize(IOEnv.CASES)
Clauses(c) ==
  LET want == Outcome(c.doc, c.strict)
  IN IF c.r = want THEN {} ELSE IF want = "ok" THEN {"document-refused"}
     ELSE IF c.r = "ok" THEN {"document-accepted"} ELSE {"document-error"}

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge == l < 0 \/ Verdict(l, Clauses(Cases[l]))
=============================================================================
