----------------------------- MODULE MC_Session -----------------------------
(* All sessions of up to Depth steps over a small universe in which spellings *)
(* collide: names, plurals, symbols, aliases and prefixes over two letters.   *)
EXTENDS Session

CONSTANT Depth
VARIABLE steps
vars == <<systems, held, steps>>

a == <<97>>   b == <<98>>   aa == <<97, 97>>   ab == <<97, 98>>   ba == <<98, 97>>
Rec(k, n, s, an, as, d, rep) ==
  [e |-> "unit", k |-> k, time |-> FALSE, d |-> d, n |-> n, s |-> s, an |-> an, as |-> as, rep |-> rep]
Pre(n, v, s) == [e |-> "prefix", n |-> n, v |-> v, s |-> s]
Universe == {
  Rec("base", <<a>>, <<b>>, <<>>, <<>>, <<>>, FALSE),
  Rec("base", <<b, ab>>, <<>>, <<>>, <<a>>, <<>>, FALSE),
  Rec("def", <<ab>>, <<ba>>, <<>>, <<>>, <<50, 32, 97>>, FALSE),             \* 2 a
  Rec("def", <<>>, <<a>>, <<<<aa>>>>, <<>>, <<98, 47, 97, 97>>, FALSE),      \* b/aa
  Rec("def", <<aa>>, <<>>, <<>>, <<b>>, <<97, 98, 32, 64, 32, 53>>, FALSE),  \* ab @ 5
  Rec("def", <<ab>>, <<a>>, <<>>, <<>>, <<51, 32, 98>>, TRUE),               \* 3 b, replacing
  Rec("fixed", <<ba>>, <<ab>>, <<>>, <<>>, <<97, 32, 97>>, FALSE),            \* a a, made at once
  Rec("dimless", <<aa>>, <<b>>, <<>>, <<>>, <<>>, TRUE),
  Pre(a, <<49, 48>>, <<b>>) }
Texts == { a, ab, <<97, 47, 98>> }

Init == Start(2) /\ steps = 0
Next == /\ steps < Depth
        /\ steps' = steps + 1
        /\ \/ \E k \in {1, 2}, r \in Universe : (k = 2 => steps > 0) /\ RegisterIn(k, Fixed(systems[k], TLCEval(Table(systems[k])), r))
           \/ \E k \in {1, 2}, t \in Texts : LookUp(k, TLCEval(Parse(t)))
Spec == Init /\ [][Next]_vars

Registrations == \A k \in {1, 2} : \A q \in Universe :
  LET r == IF q.e = "unit" /\ q.k = "fixed" THEN q @@ [m |-> Unit(None, None, <<>>, {})] ELSE q
  IN AllOrNothing(systems[k], r) /\ Growing(systems[k], r)
\* Every spelling has exactly one answer, and looking up is a function of the system.
Resolving == \A k \in {1, 2} : \A x \in AllSpellings(systems[k]) :
  Exact(systems[k], x) \in 1..Len(systems[k].units) /\ Find(systems[k], x).v = <<>>
Steps == [][HeldStays /\ Independent]_vars
=============================================================================
