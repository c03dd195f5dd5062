------------------------------ MODULE Registry ------------------------------
(* Unit systems. A registration is one of                                     *)
(*   [e: "prefix", n: text, v: number text, s: seq of symbols]                *)
(*   [e: "unit", k: "base"|"dimless"|"def"|"fixed", time: BOOLEAN,            *)
(*    d: definition (fixed: of which the meaning m is that at registration),  *)
(*    n: seq (name, or name and plural, or none), s: seq of symbols,          *)
(*    an: seq of such names, as: seq of symbols, rep: BOOLEAN]                *)
(* A system holds four maps from spellings to (the indices of) units, and two *)
(* sequences of prefixes, in the order they were added.                       *)
EXTENDS Convert

NoMap == [x \in {} |-> 0]
Empty == [names |-> NoMap, anames |-> NoMap, syms |-> NoMap, asyms |-> NoMap,
          pn |-> <<>>, ps |-> <<>>, units |-> <<>>]

\* What is raised, by what is wrong.
Errors == [syntax |-> "SyntaxError", unresolvable |-> "UnresolvableUnitException",
           value |-> "ValueError"]

Elems(s) == { s[i] : i \in 1..Len(s) }
Put(f, xs, u) == [x \in DOMAIN f \cup xs |-> IF x \in xs THEN u ELSE f[x]]
Flat(ss) == UNION { Elems(ss[i]) : i \in 1..Len(ss) }

\* Adding a prefix again changes its value but not its place.
PutPrefix(ps, x, v) ==
  IF \E i \in 1..Len(ps) : ps[i].x = x
    THEN [i \in 1..Len(ps) |-> IF ps[i].x = x THEN [x |-> x, v |-> v] ELSE ps[i]]
    ELSE Append(ps, [x |-> x, v |-> v])
RECURSIVE PutPrefixes(_, _, _)
PutPrefixes(ps, xs, v) ==
  IF xs = <<>> THEN ps ELSE PutPrefixes(PutPrefix(ps, Head(xs), v), Tail(xs), v)
AddPrefix(sys, r) ==
  [sys EXCEPT !.pn = PutPrefix(sys.pn, r.n, r.v), !.ps = PutPrefixes(sys.ps, r.s, r.v)]

\* Registration is refused if a name, plural or symbol is taken by its kind.
Refused(sys, r) ==
  /\ r.e = "unit" /\ ~r.rep
  /\ \/ \E x \in Elems(r.n) : x \in DOMAIN sys.names
     \/ \E x \in Elems(r.s) : x \in DOMAIN sys.syms
AddUnit(sys, r) ==
  LET u == Len(sys.units) + 1
  IN [sys EXCEPT !.units = Append(sys.units, r),
                 !.names = Put(sys.names, Elems(r.n), u),
                 !.syms = Put(sys.syms, Elems(r.s), u),
                 !.anames = Put(sys.anames, Flat(r.an), u),
                 !.asyms = Put(sys.asyms, Elems(r.as), u)]
Register(sys, r) ==
  IF r.e = "prefix" THEN AddPrefix(sys, r)
  ELSE IF Refused(sys, r) THEN sys ELSE AddUnit(sys, r)

RECURSIVE RegisterFrom(_, _, _)
RegisterFrom(sys, rs, i) ==
  IF i > Len(rs) THEN sys ELSE RegisterFrom(Register(sys, rs[i]), rs, i + 1)
Build(rs) == RegisterFrom(Empty, rs, 1)

(* ---- lookup ---- *)
\* The unit of exactly this spelling, or 0.
Exact(sys, x) ==
  IF x \in DOMAIN sys.names THEN sys.names[x]
  ELSE IF x \in DOMAIN sys.anames THEN sys.anames[x]
  ELSE IF x \in DOMAIN sys.syms THEN sys.syms[x]
  ELSE IF x \in DOMAIN sys.asyms THEN sys.asyms[x]
  ELSE 0
\* A unit and the value text of the prefix before it (or <<>>).
Missing == [u |-> 0, v |-> <<>>]
RECURSIVE WithPrefix(_, _, _, _)
WithPrefix(sys, ps, x, i) ==
  IF i > Len(ps) THEN Missing
  ELSE LET p == ps[i].x
           u == IF Has(x, 1, p) THEN Exact(sys, SubSeq(x, Len(p) + 1, Len(x))) ELSE 0
       IN IF u # 0 THEN [u |-> u, v |-> ps[i].v] ELSE WithPrefix(sys, ps, x, i + 1)
Find(sys, x) ==
  LET u == Exact(sys, x)
      n == WithPrefix(sys, sys.pn, x, 1)
  IN IF u # 0 THEN [u |-> u, v |-> <<>>]
     ELSE IF n # Missing THEN n ELSE WithPrefix(sys, sys.ps, x, 1)

(* ---- the meaning of every unit of a system ---- *)
Todo == [k |-> "todo"]
TimeOf(sys) == { i \in 1..Len(sys.units) : sys.units[i].time }
BaseMeaning(r, i) ==
  IF r.k = "fixed" THEN r.m
  ELSE IF r.k = "base" THEN Unit([b \in {i} |-> 1], None, <<>>, {})
  ELSE Unit(None, [b \in {i} |-> 1], <<>>, {})

FoundMeaning(f, T) ==
  IF f.u = 0 THEN Bad("unresolvable")
  ELSE IF T[f.u].k # "unit" THEN T[f.u]
  ELSE IF f.v = <<>> THEN T[f.u] ELSE Prefixed(NumScale(f.v), T[f.u])

\* What the definitions refer to.
Links(sys) ==
  [i \in 1..Len(sys.units) |->
     IF sys.units[i].k # "def" THEN [n |-> Error, f |-> NoMap]
     ELSE LET n == Parse(sys.units[i].d)
          IN [n |-> n, f |-> [x \in Idents(n) |-> Find(sys, x)]]]

Resolved(sys, link, T, i) ==
  IF T[i].k # "todo" THEN T[i]
  ELSE IF \E x \in DOMAIN link[i].f : link[i].f[x].u # 0 /\ T[link[i].f[x].u].k = "todo" THEN Todo
  ELSE Meaning(link[i].n, [x \in DOMAIN link[i].f |-> FoundMeaning(link[i].f[x], T)], TimeOf(sys), FALSE)

RECURSIVE Settle(_, _, _)
Settle(sys, link, T) ==
  LET U == TLCEval([i \in 1..Len(sys.units) |-> Resolved(sys, link, T, i)])
  IN IF U = T
       THEN \* what is left refers to itself
            LET why == {"unresolvable"} \cup UNION { T[i].why : i \in {j \in 1..Len(T) : T[j].k = "bad"} }
            IN [i \in 1..Len(T) |-> IF T[i].k = "todo" THEN BadAll(why) ELSE T[i]]
       ELSE Settle(sys, link, U)
Table(sys) ==
  Settle(sys, TLCEval(Links(sys)),
         TLCEval([i \in 1..Len(sys.units) |->
            IF sys.units[i].k = "def" THEN Todo ELSE BaseMeaning(sys.units[i], i)]))

\* A unit made of its definition at once, which is what it then stays.
Fixed(sys, T, r) ==
  IF r.e # "unit" \/ r.k # "fixed" THEN r
  ELSE LET n == Parse(r.d)
       IN r @@ [m |-> Meaning(n, TLCEval([x \in Idents(n) |-> FoundMeaning(Find(sys, x), T)]), TimeOf(sys), FALSE)]
Unmade(r) == r.e = "unit" /\ r.k = "fixed" /\ r.m.k = "bad"
IsBasis(r) == r.k \in {"base", "dimless"}

\* The meaning of text, in a system whose units mean T.
Lookup(sys, T, n) ==
  Meaning(n, TLCEval([x \in Idents(n) |-> FoundMeaning(Find(sys, x), T)]), TimeOf(sys), TRUE)

\* How a basis unit is referred to.
RefName(r) == IF r.n # <<>> THEN r.n[1] ELSE IF r.s # <<>> THEN r.s[1] ELSE <<>>
=============================================================================
