----------------------------- MODULE MC_Document -----------------------------
(* All documents of up to Depth elements over a small universe in which names *)
(* collide, written element by element.                                       *)
EXTENDS Document, Json

CONSTANT Depth
VARIABLE doc

a == <<97>>   b == <<98>>   y == <<107, 121>>   as == <<97, 115>>   kies == <<107, 105, 101, 115>>
Nm(sg, pl, np) == [sg |-> sg, pl |-> pl, np |-> np]
El(k, n, s, an, al, d, extra) == [e |-> "unit", k |-> k, n |-> n, s |-> s, an |-> an, as |-> al, d |-> d, extra |-> extra]
Universe == {
  El("base", <<Nm(<<a>>, <<>>, FALSE)>>, <<b>>, <<>>, <<>>, <<>>, FALSE),          \* a, as; b
  El("base", <<Nm(<<SecondName>>, <<>>, FALSE)>>, <<as>>, <<>>, <<>>, <<>>, FALSE),
  El("dimless", <<Nm(<<y>>, <<>>, FALSE)>>, <<>>, <<Nm(<<b>>, <<>>, TRUE)>>, <<>>, <<>>, FALSE),
  El("def", <<Nm(<<kies>>, <<a>>, FALSE)>>, <<>>, <<>>, <<a>>, <<50, 32, 98>>, FALSE),   \* 2 b
  El("def", <<>>, <<b>>, <<Nm(<<a>>, <<>>, FALSE)>>, <<>>, <<97, 47, 107, 121>>, TRUE),  \* a/ky
  El("base", <<Nm(<<>>, <<a>>, FALSE)>>, <<>>, <<>>, <<>>, <<>>, FALSE),
  [e |-> "prefix", n |-> <<a>>, v |-> <<<<49, 48>>>>, s |-> <<b>>, extra |-> FALSE],
  [e |-> "prefix", n |-> <<b>>, v |-> <<>>, s |-> <<>>, extra |-> FALSE],
  [e |-> "other", n |-> <<>>, s |-> <<>>, extra |-> FALSE] }

Init == doc = <<>>
Next == Len(doc) < Depth /\ \E x \in Universe : doc' = Append(doc, x)
Spec == Init /\ [][Next]_doc

Loaded == Build(Regs(doc))
Declared(x) == UNION { Elems(Spellings(n)) : n \in Elems(x.n) \cup Elems(x.an) } \cup Elems(x.s) \cup Elems(x.as)
AllDeclared == UNION { Declared(x) : x \in Elems(Units(doc)) }

\* The strict outcome is the other one, or a refusal of extra content.
Strictness ==
  /\ Outcome(doc, FALSE) = "ValueError" => Outcome(doc, TRUE) = "ValueError"
  /\ Outcome(doc, TRUE) # Outcome(doc, FALSE) => \E x \in Elems(doc) : Extra(x)
\* Exactly the declared spellings are those of a unit, primary names of the
\* unit which declares them.
Exactly == Outcome(doc, FALSE) = "ok" =>
  LET sys == TLCEval(Loaded)
      us == Units(doc)
  IN /\ Len(sys.units) = Len(us)
     /\ DOMAIN sys.names \cup DOMAIN sys.anames \cup DOMAIN sys.syms \cup DOMAIN sys.asyms = AllDeclared
     /\ \A i \in 1..Len(us) : us[i].n # <<>> =>
          \A s \in Elems(Spellings(us[i].n[1])) : Exact(sys, s) = i
     /\ \A i \in 1..Len(us) : sys.units[i].time <=> (us[i].k = "base" /\ us[i].n # <<>> /\ us[i].n[1].sg[1] = SecondName)
\* Where the prefixes stand makes no difference, and whether there is extra content neither.
Placement == Outcome(doc, FALSE) = "ok" =>
  LET rest == SelectSeq(doc, LAMBDA x : x.e = "unit") \o SelectSeq(doc, LAMBDA x : x.e = "prefix")
  IN Outcome(rest, TRUE) = (IF \E x \in Elems(rest) : x.extra THEN "ValueError" ELSE "ok") /\ Build(Regs(rest)) = Loaded
\* For replaying.
Behaviours == PrintT("DOC " \o ToString(Len(doc)) \o " " \o ToJson(doc))
\* Nothing can be added which makes a refused document acceptable.
Refusals == [][Outcome(doc, FALSE) = "ValueError" => Outcome(doc', FALSE) = "ValueError"]_doc
=============================================================================
