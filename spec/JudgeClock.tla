----------------------------- MODULE JudgeClock -----------------------------
(* Judges recorded uses of times and date-times:                              *)
(*  q = "time": t: time, o: its text, t2: another time, o2: its text          *)
(*  q = "same": a, b: date-times (or times), eq, ne: "T"/"F"/what was raised, *)
(*    hash: whether they hash equally, sets: the number of elements of the    *)
(*    set of the two, get: whether one finds what is stored under the other   *)
EXTENDS Clock, Judging

Cases == ndJsonDeserialize(IOEnv.CASES)

Clauses(c) ==
  IF c.q = "time"
    THEN (IF c.o = TimeText(c.t) THEN {} ELSE {"text"})
         \cup (IF (c.o = c.o2) = (c.t = c.t2) THEN {} ELSE {"distinct"})
  ELSE LET same == c.a = c.b
           T(x) == IF x THEN "T" ELSE "F"
       IN (IF c.eq = T(same) THEN {} ELSE {"equality"})
          \cup (IF c.ne = T(~same) THEN {} ELSE {"inequality"})
          \cup (IF same => c.hash = "T" THEN {} ELSE {"hash"})
          \cup (IF c.sets = (IF same THEN 1 ELSE 2) THEN {} ELSE {"set"})
          \cup (IF c.get = T(same) THEN {} ELSE {"dict"})

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge == l < 0 \/ Verdict(l, Clauses(Cases[l]))
=============================================================================
