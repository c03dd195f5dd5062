----------------------------- MODULE MC_Convert -----------------------------
(* The laws of conversion on the specification: three units are built up step *)
(* by step from two basis units, by every construction of the grammar; in     *)
(* every state, converting to itself, there and back, and via a third unit    *)
(* have the required normal forms, and being the same unit is an equivalence. *)
EXTENDS Convert

CONSTANT Depth
VARIABLES u, steps
vars == <<u, steps>>

m == Lin([x \in {"m"} |-> 1], None, One, {})
s == Lin([x \in {"s"} |-> 1], None, One, {})
rad == Lin(None, [x \in {"rad"} |-> 1], One, {})
one == Lin(None, None, One, {})
Num(x) == NumScale(x)
Two == Num(<<50>>)  Tenth == Num(<<46, 49>>)  Neg == Num(<<45, 51>>)

\* One more operation around a unit.
Around(d) ==
  { Product(Lin(None, None, Two, {}), d, 1), Product(d, Lin(None, None, Tenth, {}), -1),
    Product(d, rad, 1), Product(one, d, -1), Power(d, -1), Power(d, 2), Product(d, s, -1),
    Shifted(d, Two), Shifted(d, Neg), LogOf(d, <<108, 103>>), LogOf(d, <<108, 110>>),
    Prefixed(Tenth, d) }

Init == u \in { <<x, y, z>> : x, y, z \in {m} } /\ steps = 0
Next == /\ steps < Depth
        /\ steps' = steps + 1
        /\ \E i \in 1..3 : \E d \in Around(u[i]) : u' = [u EXCEPT ![i] = d]
Spec == Init /\ [][Next]_vars

Fine(d) == d.wild \cap {"logprod", "logpow", "zero"} = {}
Identity == \A i \in 1..3 : Fine(u[i]) =>
  /\ Convertible(u[i], u[i]) /\ Normal(Plan(u[i], u[i])) = <<>> /\ SameUnit(u[i], u[i])
Inverse == \A i, j \in 1..3 : Fine(u[i]) /\ Fine(u[j]) /\ Convertible(u[i], u[j]) =>
  /\ Convertible(u[j], u[i])
  /\ Normal(Plan(u[i], u[j]) \o Plan(u[j], u[i])) = <<>>
Composition ==
  (\A i \in 1..3 : Fine(u[i])) /\ Convertible(u[1], u[2]) /\ Convertible(u[2], u[3]) =>
    /\ Convertible(u[1], u[3])
    /\ SameDim(u[1], u[3]) => SamePlan(Plan(u[1], u[2]) \o Plan(u[2], u[3]), Plan(u[1], u[3]))
Equivalence ==
  /\ \A i, j \in 1..3 : SameUnit(u[i], u[j]) =>
       /\ SameUnit(u[j], u[i]) /\ (Fine(u[i]) => Normal(Plan(u[i], u[j])) = <<>>)
  /\ SameUnit(u[1], u[2]) /\ SameUnit(u[2], u[3]) => SameUnit(u[1], u[3])
=============================================================================
