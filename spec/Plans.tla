------------------------------- MODULE Plans --------------------------------
(* Writing out conversion plans, for evaluation in numbers.                   *)
EXTENDS Convert, SequencesExt

Pairs(f) == SetToSeq({ [a |-> x, e |-> f[x]] : x \in DOMAIN f })
StepOut(x) ==
  IF x.s \in {"mul", "add"} THEN [s |-> x.s, sg |-> x.m.sg, m |-> Pairs(x.m.m)]
  ELSE IF x.s = "inv" THEN [s |-> "inv"] ELSE [s |-> x.s, b |-> x.b]
PlanOut(p) == [i \in 1..Len(p) |-> StepOut(p[i])]
=============================================================================
