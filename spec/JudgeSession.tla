---------------------------- MODULE JudgeSession ----------------------------
(* Checks recorded sessions against Session: every event of a trace is a step *)
(* of the specification, whose answer must be the recorded one. Events:       *)
(*  [e: "reg", k: system, r: registration, res: "ok" | what was raised]       *)
(*  [e: "look", k: system, t: text, r: "unit"|"date"|what was raised,         *)
(*   exp: expanded text, dim: dimensionality]                                 *)
(*  [e: "ask", h: number of the lookup, r, exp, dim]: the unit which that     *)
(*   lookup returned, asked again                                             *)
(*  [e: "conv", h, g: numbers of lookups, r: "ok" | what was raised]          *)
(*  [e: "eq", h, g: numbers of lookups, r: "T", "F" or what was raised]       *)
(*  [e: "dim", h, r, dim, inv]: the dimensionality which the unit of that     *)
(*   lookup gave then, and its inverse                                        *)
(*  [e: "deq", h, g, r]: whether these dimensionalities are equal             *)
(*  [e: "can", h, g, r]: whether the one is said to be convertible to the     *)
(*   other                                                                    *)
(*  [e: "load", k, s]: system k (not used so far) is a newly loaded one, number s *)
(*   of those in Systems                                                      *)
EXTENDS Session, Systems

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES l, i, tables
vars == <<l, i, systems, held, tables>>

\* Two basis units of the same name (one has replaced the other).
Clash(sys) == \E b, c \in 1..Len(sys.units) :
  b < c /\ IsBasis(sys.units[b]) /\ IsBasis(sys.units[c]) /\ RefName(sys.units[b]) = RefName(sys.units[c])

\* The recorded answer c is what a unit of system k that means d answers.
Says(sys, d, c) ==
  LET u == IF d.k = "date" THEN d.unit ELSE d
      n == Parse(c.exp)
      D == { <<p[1], p[2]>> : p \in Elems(c.dim) }
      N == ByNames(sys, n)
      M == IF N.k = "date" THEN N.unit ELSE N
      f == ByName(sys, u.dim)
  IN IF c.r \notin Outcomes(d)
       THEN IF d.k = "bad" THEN IF c.r \in {"unit", "date"} THEN {"accepted"} ELSE {"error"}
            ELSE IF c.r \in {"unit", "date"} THEN {"kind"} ELSE {"refused"}
     ELSE IF d.k = "bad" THEN {}
     ELSE (IF D = { <<x, f[x]>> : x \in DOMAIN f } THEN {} ELSE {"dimensionality"})
          \cup (IF n = Error THEN {"expanded-unreadable"}
                ELSE IF Mixed(sys, n) \/ u.wild # {} THEN {}
                ELSE IF M.k = "bad" \/ N.k # d.k THEN {"expanded"}
                ELSE IF SameNamed(sys, M, u) THEN {} ELSE {"expanded"})

\* A dimensionality which is still that of d.
Said(dim) == { <<p[1], p[2]>> : p \in Elems(dim) }
Measures(sys, d, c) ==
  LET u == IF d.k = "date" THEN d.unit ELSE d
      f == ByName(sys, u.dim)
  IN IF d.k = "bad" THEN {}
     ELSE IF c.r # "ok" THEN {"dimensionality-raised"}
     ELSE (IF Said(c.dim) = { <<x, f[x]>> : x \in DOMAIN f } THEN {} ELSE {"dimensionality"})
          \cup (IF Said(c.inv) = { <<x, -f[x]>> : x \in DOMAIN f } THEN {} ELSE {"inverse"})
UnitOf(d) == IF d.k = "date" THEN d.unit ELSE d
Flag(b) == IF b THEN "T" ELSE "F"

(* Units are compared with the names of their basis units, since they may be  *)
(* of different systems.                                                      *)
WithNames(sys, u) == [u EXCEPT !.dim = ByName(sys, u.dim), !.dl = ByName(sys, u.dl)]
NamedUnit(h) ==
  LET d == held[h].d
  IN IF d.k = "bad" THEN d
     ELSE IF d.k = "date" THEN [d EXCEPT !.unit = WithNames(systems[held[h].k], d.unit)]
     ELSE WithNames(systems[held[h].k], d)
\* Not if a name is that of several basis units, or of basis units of several kinds.
Kinds(sys) == { <<RefName(r), r.k>> : r \in { x \in Elems(sys.units) : IsBasis(x) } }
Comparable(h, g) ==
  LET k == held[h].k
      m == held[g].k
  IN /\ held[h].d.k # "bad" /\ held[g].d.k # "bad"
     /\ ~Clash(systems[k]) /\ (k # m => ~Clash(systems[m]))
     /\ k # m => \A x \in Kinds(systems[k]), y \in Kinds(systems[m]) : x[1] = y[1] => x[2] = y[2]

Reason(c) ==
  IF c.e = "load" THEN IF c.res = "ok" THEN {} ELSE {"load"}
  ELSE IF c.e = "reg" THEN IF c.res \in Answers(systems[c.k], Fixed(systems[c.k], tables[c.k], c.r)) THEN {} ELSE {"registration"}
  ELSE IF c.e = "look"
    THEN LET n == Parse(c.t) IN Says(systems[c.k], Lookup(systems[c.k], tables[c.k], n), c)
  ELSE IF c.e = "ask" THEN { "kept-" \o w : w \in Says(systems[held[c.h].k], held[c.h].d, c) }
  ELSE IF c.e = "dim" THEN { "kept-" \o w : w \in Measures(systems[held[c.h].k], held[c.h].d, c) }
  ELSE IF ~Comparable(c.h, c.g) THEN {}
  ELSE
    LET d == NamedUnit(c.h)
        e == NamedUnit(c.g)
    IN CASE c.e = "eq" ->
              IF d.k # "unit" \/ e.k # "unit" THEN {}
              ELSE IF d.wild \cup e.wild # {} THEN {}
              ELSE IF c.r = Flag(SameUnit(d, e)) THEN {} ELSE {"equality"}
         [] c.e = "deq" ->
              IF c.r = Flag(UnitOf(d).dim = UnitOf(e).dim) THEN {} ELSE {"equal-dimensionality"}
         [] c.e = "can" ->
              IF c.r = Flag(Convertible(d, e)) THEN {} ELSE {"query"}
         [] c.e = "conv" ->
              IF d.k # "date" /\ e.k # "date"
                 /\ {"logprod", "logpow", "zero"} \cap (d.wild \cup e.wild) # {} THEN {}
              ELSE IF c.r = (IF Convertible(d, e) THEN "ok" ELSE "IncompatibleUnitsError")
                THEN {} ELSE {"existence"}

PlanLine(c) ==
  LET d == NamedUnit(c.h)
      e == NamedUnit(c.g)
  IN IF Comparable(c.h, c.g) /\ Convertible(d, e) /\ d.wild \cup e.wild = {}
       THEN PrintT("PLAN " \o ToString(l * 1000 + i) \o " " \o ToJson([p |-> PlanOut(Plan(d, e))]))
       ELSE TRUE

Event == Cases[l].ev[i + 1]
Step ==
  LET c == Event
  IN CASE c.e = "load" ->
            /\ systems' = [systems EXCEPT ![c.k] = TheSystems[c.s]]
            /\ tables' = [tables EXCEPT ![c.k] = TheTables[c.s]]
            /\ UNCHANGED held
       [] c.e = "reg" ->
            /\ RegisterIn(c.k, Fixed(systems[c.k], tables[c.k], c.r))
            /\ tables' = [tables EXCEPT ![c.k] = IF systems'[c.k] = systems[c.k] THEN @
                                                 ELSE TLCEval(Table(systems'[c.k]))]
       [] c.e = "look" ->
            /\ held' = Append(held, [k |-> c.k, d |-> Lookup(systems[c.k], tables[c.k], Parse(c.t))])
            /\ UNCHANGED <<systems, tables>>
       [] OTHER -> UNCHANGED <<systems, held, tables>>

Init == /\ l \in ChunkIds(Len(Cases)) /\ i = 0
        /\ Start(4) /\ tables = <<<<>>, <<>>, <<>>, <<>>>>
Choose == l < 0 /\ l' \in Chunk(l, Len(Cases)) /\ UNCHANGED <<i, systems, held, tables>>
Continue == l > 0 /\ i < Len(Cases[l].ev) /\ i' = i + 1 /\ l' = l /\ Step
Next == Choose \/ Continue

\* Evaluated in the state before each event.
Judge ==
  IF l > 0 /\ i < Len(Cases[l].ev)
    THEN LET bad == Reason(Event)
         IN (bad = {} \/ PrintT("BAD " \o ToString(l * 1000 + i) \o " " \o ToJson(bad)))
            /\ (Event.e # "conv" \/ Event.r # "ok" \/ PlanLine(Event))
    ELSE TRUE
=============================================================================
