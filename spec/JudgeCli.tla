------------------------------ MODULE JudgeCli ------------------------------
(* Judges recorded runs of the command line. A case is one of                 *)
(*  q = "conv": texts a and b; code: the exit status (-1: an exception);      *)
(*    lines: the lines written (to either stream); sa, sb: the texts of the   *)
(*    two units, as the library has them. The plan is printed, to be compared *)
(*    with the expression which was written.                                  *)
(*  q = "explain": text t; code; lines; labels: how many of the three labels  *)
(*    were found in their order; unit, exp: texts; dim: dimensionality        *)
(*  q = "tokens": text t; code; joined: the concatenation of the tokens       *)
EXTENDS Systems

Cases == ndJsonDeserialize(IOEnv.CASES)

Occurs(s, w) == \E i \in 1..Len(s) : Has(s, i, w)
Names(c, s, n) == Parse(s) # Error /\ (Canon(Parse(s)) = Canon(n) \/ n.op = "empty") /\ \E i \in 1..Len(c.lines) : Occurs(c.lines[i], s)

ConvClauses(c) ==
  LET n == Parse(c.a)
      o == Parse(c.b)
      d == Means(c.s, n)
      e == Means(c.s, o)
  IN IF d.k = "bad" \/ e.k = "bad" THEN IF c.code = 0 THEN {"accepted"} ELSE {"void"}
     ELSE IF {"logprod", "logpow", "zero"} \cap
             ((IF d.k = "unit" THEN d.wild ELSE {}) \cup (IF e.k = "unit" THEN e.wild ELSE {})) # {} THEN {"void"}
     ELSE (IF c.code = (IF Convertible(d, e) THEN 0 ELSE 1) THEN {} ELSE {"status"})
          \cup (IF Names(c, c.sa, n) /\ Names(c, c.sb, o) THEN {} ELSE {"naming"})

ExplainClauses(c) ==
  LET n == Parse(c.t)
      d == Means(c.s, n)
      u == IF d.k = "date" THEN d.unit ELSE d
      sn == Parse(c.unit)
      xn == Parse(c.exp)
      x == ByNames(TheSystems[c.s], xn)
      xu == IF x.k = "date" THEN x.unit ELSE x
      D == { <<p[1], p[2]>> : p \in Elems(c.dim) }
  IN IF d.k = "bad" THEN IF c.code = 0 THEN {"accepted"} ELSE {"void"}
     ELSE IF c.code # 0 \/ c.labels # 3 THEN {"explain"}
     ELSE (IF sn # Error /\ (n.op = "empty" \/ Canon(sn) = Canon(n)) THEN {} ELSE {"unit"})
          \cup (IF xn # Error /\ x.k = d.k /\ (u.wild # {} \/ SameNamed(TheSystems[c.s], xu, u)) THEN {} ELSE {"basis"})
          \cup (IF D = DimOf(c.s, u.dim) THEN {} ELSE {"dimensionality"})

TokenClauses(c) ==
  IF Parse(c.t) = Error THEN {"void"}
  ELSE IF c.code = 0 /\ c.joined = Strip(c.t) THEN {} ELSE {"tokens"}

PlanLine(l, c) ==
  LET d == Means(c.s, Parse(c.a))
      e == Means(c.s, Parse(c.b))
  IN ~Convertible(d, e)
     \/ PrintT("PLAN " \o ToString(l) \o " " \o
               ToJson([p |-> PlanOut(Plan(d, e)), w |-> SetToSeq(d.wild \cup e.wild)]))

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge ==
  l < 0 \/ LET c == Cases[l]
           IN CASE c.q = "conv" -> Verdict(l, ConvClauses(c)) /\ (c.code # 0 \/ PlanLine(l, c))
                [] c.q = "explain" -> Verdict(l, ExplainClauses(c))
                [] OTHER -> Verdict(l, TokenClauses(c))
=============================================================================
