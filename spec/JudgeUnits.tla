----------------------------- MODULE JudgeUnits -----------------------------
(* Judges recorded uses of the library. A case is one of                      *)
(*  q = "unit": text t looked up in system s                                  *)
(*    r: "unit", "date" or the name of what was raised; and if a unit or date *)
(*    dim, less, time: dimensionality and the two queries                     *)
(*    str, exp: its text and its expanded text                                *)
(*    nrm, nrm2: the text of its normalised definition, and normalised twice  *)
(*    and for a date ref: the reference, ustr: the text of the unit           *)
(*  q = "spell": the same, for a text which is to be one identifier           *)
(*  q = "pair": texts a and b looked up in system s, both succeeding          *)
(*    r: "ok", or the name of what making a converter from a to b raised      *)
(*    ab, ba: the convertibility query; eq, qe: "T", "F" or what was raised   *)
(*    For these, the conversion plan is printed, to be compared in numbers.   *)
EXTENDS Systems

Cases == ndJsonDeserialize(IOEnv.CASES)

Tame(d) == d.k = "unit" /\ d.wild = {}
Same(d, e) == d.k = "unit" /\ e.k = "unit" /\ SameUnit(d, e)

UnitClauses(c) ==
  LET n == IF c.q = "spell" THEN [op |-> "id", x |-> c.t] ELSE Parse(c.t)
      d == Means(c.s, n)
      u == IF d.k = "date" THEN d.unit ELSE d
      sn == Parse(c.str)
      nn == Parse(c.nrm)
      xn == Parse(c.exp)
      x == Means(c.s, xn)
      xu == IF x.k = "date" THEN x.unit ELSE x
      Dims == { <<p[1], p[2]>> : p \in Elems(c.dim) }
  IN IF c.q = "spell" /\ Find(TheSystems[c.s], c.t).u # 0 /\ c.r # "unit" THEN {"refused"}
     ELSE IF c.r \notin Outcomes(d)
       THEN IF d.k = "bad" THEN IF c.r \in {"unit", "date"} THEN {"accepted"} ELSE {"error"}
            ELSE IF c.r \in {"unit", "date"} THEN {"kind"} ELSE {"refused"}
     ELSE IF d.k = "bad" THEN {}
     ELSE (IF Dims = DimOf(c.s, u.dim) /\ Len(c.dim) = Cardinality(Dims) THEN {} ELSE {"dimensionality"})
          \cup (IF c.less = (d.k = "unit" /\ u.dim = None) THEN {} ELSE {"dimensionless"})
          \cup (IF c.time = (d.k = "date" \/ IsTime(u, TimeOf(TheSystems[c.s]))) THEN {} ELSE {"time"})
          \cup (IF sn = Error THEN {"text-unreadable"}
                ELSE IF n.op # "empty" /\ Canon(sn) = Canon(n) THEN {}
                ELSE IF d.k = "date" \/ ~Tame(d) \/ ~Same(Means(c.s, sn), d) THEN {"text"} ELSE {})
          \cup (IF nn = Error THEN {"normal-unreadable"}
                ELSE IF n.op # "empty" /\ Canon(nn) = Canon(IF d.k = "date" THEN n.l ELSE n) THEN {}
                ELSE IF ~Tame(u) \/ ~Same(Means(c.s, nn), u) THEN {"normal"} ELSE {})
          \cup (IF c.nrm = c.nrm2 THEN {} ELSE {"not-idempotent"})
          \cup (IF xn = Error \/ Mixed(TheSystems[c.s], xn) THEN {}
                ELSE LET y == ByNames(TheSystems[c.s], xn)
                         yu == IF y.k = "date" THEN y.unit ELSE y
                     IN IF y.k = d.k /\ (u.wild # {} \/ SameNamed(TheSystems[c.s], yu, u)) THEN {} ELSE {"denotes"})
          \cup (IF xn = Error THEN {"expanded-unreadable"}
                ELSE IF ~IsProper[c.s] THEN {}
                ELSE IF x.k # d.k THEN {"expanded"}
                ELSE IF d.k = "date" /\ x.ref # d.ref THEN {"expanded"}
                ELSE IF ~Tame(u) \/ Same(xu, u) THEN {} ELSE {"expanded"})
          \cup (IF d.k # "date" THEN {}
                ELSE (IF c.ref = d.ref THEN {} ELSE {"reference"})
                     \cup (IF Parse(c.ustr) # Error /\ Canon(Parse(c.ustr)) = Canon(n.l)
                             THEN {} ELSE {"date-unit"}))

\* What may be answered to the question whether two units are the same: any,
\* but the same from both sides, if UDUNITS leaves their meaning undefined.
Equal(wild, same) == {"-"} \cup IF wild = {} THEN {same} ELSE {"T", "F"}

PairClauses(c) ==
  LET d == Means(c.s, Parse(c.a))
      e == Means(c.s, Parse(c.b))
      same == IF SameUnit(d, e) THEN "T" ELSE "F"
  IN IF d.k = "bad" \/ e.k = "bad" THEN IF c.r = "lookup" THEN {"void"} ELSE {"lookup"}
     ELSE IF c.r = "lookup" THEN {"lookup"}
     ELSE IF d.k = "date" \/ e.k = "date"
       THEN (IF c.r = "IncompatibleUnitsError" THEN {} ELSE {"existence"})
            \cup (IF c.ab = "F" /\ c.ba = "F" THEN {} ELSE {"query"})
            \cup (IF c.eq \in (IF d.k = e.k THEN {"T", "F", "-"} ELSE {"F", "-"}) THEN {} ELSE {"equality"})
            \cup (IF c.qe \in (IF d.k = e.k THEN {"T", "F", "-"} ELSE {"F", "-"}) THEN {} ELSE {"equality-reversed"})
     ELSE LET wild == d.wild \cup e.wild
              can == IF Convertible(d, e) THEN "T" ELSE "F"
          IN (IF c.r = (IF can = "T" THEN "ok" ELSE "IncompatibleUnitsError") \/ (can = "T" /\ {"logprod", "logpow", "zero"} \cap wild # {})
                THEN {} ELSE {"existence"})
             \cup (IF c.ab = can THEN {} ELSE {"query"})
             \cup (IF c.ba = can THEN {} ELSE {"query-reversed"})
             \cup (IF c.eq \in Equal(wild, same) THEN {} ELSE {"equality"})
             \cup (IF c.qe \in Equal(wild, same) /\ c.qe = c.eq THEN {} ELSE {"equality-reversed"})

PlanLine(l, c) ==
  LET d == Means(c.s, Parse(c.a))
      e == Means(c.s, Parse(c.b))
  IN IF Convertible(d, e)
       THEN PrintT("PLAN " \o ToString(l) \o " " \o
              ToJson([p |-> PlanOut(Plan(d, e)), w |-> SetToSeq(d.wild \cup e.wild)]))
       ELSE TRUE

VARIABLE l
Init == l \in ChunkIds(Len(Cases))
Next == l < 0 /\ l' \in Chunk(l, Len(Cases))
Judge ==
  l < 0 \/ LET c == Cases[l]
           IN IF c.q \in {"unit", "spell"} THEN Verdict(l, UnitClauses(c))
              ELSE Verdict(l, PairClauses(c)) /\ (c.r # "ok" \/ PlanLine(l, c))
=============================================================================
