------------------------------ MODULE Session -------------------------------
(* A session with several unit systems: registrations and lookups, in any     *)
(* order. held is what the lookups so far returned (units are values, which   *)
(* keep their meaning whatever is registered later).                          *)
EXTENDS Registry

VARIABLES systems, held
session == <<systems, held>>

Start(n) == systems = [k \in 1..n |-> Empty] /\ held = <<>>

\* What registering does, and what it reports.
Answers(sys, r) ==
  IF Unmade(r) THEN { Errors[w] : w \in r.m.why }
  ELSE IF Refused(sys, r) THEN {"ValueError"} ELSE {"ok"}
RegisterIn(k, r) ==
  /\ systems' = [systems EXCEPT ![k] = IF Unmade(r) THEN @ ELSE Register(@, r)]
  /\ UNCHANGED held

\* Looking up the text with tree n in system k. Basis units are identified by
\* the system and their place in it.
Found(k, n) == Lookup(systems[k], TLCEval(Table(systems[k])), n)
LookUp(k, n) ==
  /\ held' = Append(held, [k |-> k, d |-> Found(k, n)])
  /\ UNCHANGED systems

(* ---- what must hold ---- *)
AllSpellings(sys) ==
  DOMAIN sys.names \cup DOMAIN sys.syms \cup DOMAIN sys.anames \cup DOMAIN sys.asyms
Own(r) == Elems(r.n) \cup Elems(r.s) \cup Flat(r.an) \cup Elems(r.as)

\* A refused registration changes nothing; a successful one makes the unit
\* reachable by all its spellings (of their kinds) and leaves all others.
AllOrNothing(sys, r) ==
  LET new == Register(sys, r)
      u == Len(new.units)
  IN r.e = "unit" =>
       IF Refused(sys, r) THEN new = sys
       ELSE /\ new.units[u] = r
            /\ \A x \in Elems(r.n) : new.names[x] = u
            /\ \A x \in Elems(r.s) : new.syms[x] = u
            /\ \A x \in Flat(r.an) : new.anames[x] = u
            /\ \A x \in Elems(r.as) : new.asyms[x] = u
            /\ \A x \in AllSpellings(sys) \ Own(r) : Exact(new, x) = Exact(sys, x)
            /\ AllSpellings(new) = AllSpellings(sys) \cup Own(r)
            /\ SubSeq(new.units, 1, u - 1) = sys.units
\* Without replacement, what could be looked up by an exact spelling before
\* can be looked up after, and primary names keep their unit.
Growing(sys, r) ==
  LET new == Register(sys, r)
  IN r.e = "unit" /\ ~r.rep =>
       /\ \A x \in AllSpellings(sys) : Exact(new, x) # 0
       /\ \A x \in DOMAIN sys.names : new.names[x] = sys.names[x]
       /\ \A x \in DOMAIN sys.syms : new.syms[x] = sys.syms[x]
HeldStays == \/ held' = held
             \/ /\ Len(held') = Len(held) + 1
                /\ SubSeq(held', 1, Len(held)) = held
Independent == \A k \in DOMAIN systems :
  systems'[k] # systems[k] => \A j \in DOMAIN systems : j # k => systems'[j] = systems[j]
=============================================================================
