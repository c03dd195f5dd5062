------------------------------- MODULE Names --------------------------------
(* Reading text in which every identifier is the name of a basis unit, as in  *)
(* the expanded text of a unit.                                               *)
EXTENDS Registry

\* Basis units are compared by name (they may have been replaced since).
Basis(sys, x) == { b \in 1..Len(sys.units) : IsBasis(sys.units[b]) /\ RefName(sys.units[b]) = x }
ByName(sys, f) ==
  LET N == { RefName(sys.units[b]) : b \in DOMAIN f }
      B(x) == { b \in DOMAIN f : RefName(sys.units[b]) = x }
      RECURSIVE SumOf(_)
      SumOf(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN f[b] + SumOf(S \ {b})
  IN Keep([x \in N |-> SumOf(B(x))])
SameNamed(sys, d, e) ==
  /\ ByName(sys, d.dim) = ByName(sys, e.dim) /\ ByName(sys, d.dl) = ByName(sys, e.dl)
  /\ SamePlan(d.steps, e.steps)
NameEnv(sys, n) ==
  [x \in Idents(n) |->
     LET B == Basis(sys, x)
         b == CHOOSE b \in B : TRUE
     IN IF B = {} THEN Bad("unresolvable") ELSE BaseMeaning(sys.units[b], b)]
Mixed(sys, n) == \E x \in Idents(n) : \E b, c \in Basis(sys, x) : 
  sys.units[b].k # sys.units[c].k \/ sys.units[b].time # sys.units[c].time
ByNames(sys, n) == Meaning(n, TLCEval(NameEnv(sys, n)), TimeOf(sys), TRUE)

\* Every basis unit can be looked up by the name it is referred to.
Proper(sys) == \A b \in 1..Len(sys.units) :
  IsBasis(sys.units[b]) => Exact(sys, RefName(sys.units[b])) = b
=============================================================================
