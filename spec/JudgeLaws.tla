----------------------------- MODULE JudgeLaws ------------------------------
(* Judges recorded sequences of conversions. A case is one of                 *)
(*  q = "chain": texts path[1] -> path[2] -> ... of system s, converted one    *)
(*    after the other                                                         *)
(*    r: "ok", or the name of what making a converter raised                  *)
(*    The laws: the plans of the path one after the other have the normal     *)
(*    form of the plan from its first to its last unit (for a round trip,     *)
(*    the identity). The plan of the path is printed, to be compared with     *)
(*    the converted values.                                                   *)
(*  q = "uses": one conversion, used many times. Values are numbered.         *)
(*    table: the results of single values; uses: sequence of                  *)
(*    [in, after: the elements before and after the use, out: the elements of *)
(*     the result, later: the same, after all of the uses, si, so: the shapes  *)
(*     of the two]                                                            *)
EXTENDS Systems

Cases == ndJsonDeserialize(IOEnv.CASES)

Denoted(c) == [i \in 1..Len(c.path) |-> Means(c.s, Parse(c.path[i]))]

RECURSIVE ChainFrom(_, _)
ChainFrom(d, i) == IF i >= Len(d) THEN <<>> ELSE Plan(d[i], d[i + 1]) \o ChainFrom(d, i + 1)
Chain(d) == ChainFrom(d, 1)
Wild(d) == UNION { d[i].wild : i \in 1..Len(d) }
Linked(d) == \A i \in 1..(Len(d) - 1) : Convertible(d[i], d[i + 1])

ChainClauses(c) ==
  LET d == Denoted(c)
  IN IF \E i \in 1..Len(d) : d[i].k = "bad" THEN IF c.r = "lookup" THEN {"void"} ELSE {"lookup"}
     ELSE IF \E i \in 1..Len(d) : d[i].k = "date"
       THEN IF c.r = "IncompatibleUnitsError" THEN {} ELSE {"existence"}
     ELSE IF {"logprod", "logpow", "zero"} \cap Wild(d) # {} THEN {}
     ELSE IF ~Linked(d) THEN IF c.r = "IncompatibleUnitsError" THEN {} ELSE {"existence"}
     ELSE (IF c.r = "ok" THEN {} ELSE {"existence"})
          \cup (IF Convertible(d[1], d[Len(d)]) /\ SameDim(d[1], d[Len(d)])
                   /\ ~SamePlan(Chain(d), Plan(d[1], d[Len(d)])) THEN {"law"} ELSE {})

UseClauses(c) ==
  UNION { LET u == c.uses[i]
          IN (IF u.si = u.so /\ Len(u.out) = Len(u.in) THEN {} ELSE {"shape"})
             \cup (IF \A j \in 1..Len(u.out) : j > Len(u.in) \/ u.out[j] = c.table[u.in[j]]
                     THEN {} ELSE {"element"})
             \cup (IF u.after = u.in THEN {} ELSE {"input"})
             \cup (IF u.later = u.out THEN {} ELSE {"later"})
        : i \in 1..Len(c.uses) }
  \cup (IF c.r = "ok" THEN {} ELSE {"raised"})

PlanLine(l, c) ==
  LET d == Denoted(c)
  IN (\E i \in 1..Len(d) : d[i].k # "unit") \/ ~Linked(d)
     \/ PrintT("PLAN " \o ToString(l) \o " " \o
               ToJson([p |-> PlanOut(Chain(d)), w |-> SetToSeq(Wild(d))]))

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge ==
  l < 0 \/ LET c == Cases[l]
           IN IF c.q = "chain" THEN Verdict(l, ChainClauses(c)) /\ (c.r # "ok" \/ PlanLine(l, c))
              ELSE Verdict(l, UseClauses(c))
=============================================================================
