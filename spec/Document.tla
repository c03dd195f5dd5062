------------------------------ MODULE Document ------------------------------
(* UDUNITS-2 unit documents. A document is a sequence of elements:            *)
(*  [e: "prefix", n: seq of at most one name, v: seq of at most one value,    *)
(*   s: seq of symbols, extra: BOOLEAN]                                       *)
(*  [e: "unit", n: seq of at most one name element, s: seq of symbols,        *)
(*   an: seq of name elements, as: seq of symbols, k: "def"|"base"|"dimless", *)
(*   d: definition, extra: BOOLEAN]                                           *)
(*  [e: "other"]                                                              *)
(* where a name element is [sg: seq of at most one text, pl: seq of at most   *)
(* one text, np: BOOLEAN (noplural)], and extra says that there is something  *)
(* which isn't part of UDUNITS-2 documents.                                   *)
EXTENDS Registry

(* ---- English plurals, by the rule of UDUNITS-2 ---- *)
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Ends(s, w) == Len(s) >= Len(w) /\ Last(s, Len(w)) = w
LetterS == <<115>>
LetterY == <<121>>
Vowels == {97, 101, 105, 111, 117}
Plural(s) ==
  IF Ends(s, LetterY) /\ Len(s) > 1 /\ s[Len(s) - 1] \notin Vowels
    THEN SubSeq(s, 1, Len(s) - 1) \o <<105, 101, 115>>          \* henry, henries
  ELSE IF \E w \in {LetterS, <<120>>, <<122>>, <<115, 104>>, <<99, 104>>} : Ends(s, w)
    THEN s \o <<101, 115>>                                        \* inch, inches
  ELSE s \o LetterS

Spellings(x) ==
  IF x.pl # <<>> THEN <<x.sg[1], x.pl[1]>>
  ELSE IF x.np THEN <<x.sg[1]>> ELSE <<x.sg[1], Plural(x.sg[1])>>

SecondName == <<115, 101, 99, 111, 110, 100>>
Registration(x) ==
  IF x.e = "prefix" THEN [e |-> "prefix", n |-> x.n[1], v |-> x.v[1], s |-> x.s]
  ELSE [e |-> "unit", k |-> x.k, d |-> x.d, rep |-> FALSE,
        time |-> x.k = "base" /\ x.n # <<>> /\ x.n[1].sg[1] = SecondName,
        n |-> IF x.n = <<>> THEN <<>> ELSE Spellings(x.n[1]), s |-> x.s,
        an |-> [i \in 1..Len(x.an) |-> Spellings(x.an[i])], as |-> x.as]

Prefixes(doc) == SelectSeq(doc, LAMBDA x : x.e = "prefix")
Units(doc) == SelectSeq(doc, LAMBDA x : x.e = "unit")
Ordered(doc) == Prefixes(doc) \o Units(doc)
Regs(doc) == LET o == Ordered(doc) IN [i \in 1..Len(o) |-> Registration(o[i])]

Complete(x) ==
  CASE x.e = "prefix" -> x.n # <<>> /\ x.v # <<>>
    [] x.e = "unit" -> (\A i \in 1..Len(x.n) : x.n[i].sg # <<>>) /\ (\A i \in 1..Len(x.an) : x.an[i].sg # <<>>)
    [] OTHER -> TRUE
Extra(x) == x.e = "other" \/ x.extra

RECURSIVE Conflict(_, _, _)
Conflict(sys, rs, i) ==
  IF i > Len(rs) THEN FALSE
  ELSE Refused(sys, rs[i]) \/ Conflict(Register(sys, rs[i]), rs, i + 1)

\* What loading does.
Outcome(doc, strict) ==
  IF \E i \in 1..Len(doc) : ~Complete(doc[i]) THEN "ValueError"
  ELSE IF strict /\ \E i \in 1..Len(doc) : Extra(doc[i]) THEN "ValueError"
  ELSE IF Conflict(Empty, Regs(doc), 1) THEN "ValueError" ELSE "ok"
=============================================================================
