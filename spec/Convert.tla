------------------------------ MODULE Convert -------------------------------
(* Conversion plans and their algebra. A plan is a sequence of steps          *)
(*   [s: "mul"|"add", m: scale]  [s: "exp"|"log", b: base]  [s: "inv"]        *)
(* applied left to right to a value.                                          *)
EXTENDS Semantics

InverseStep(x) ==
  CASE x.s = "mul" -> [x EXCEPT !.m = SInv(x.m)]
    [] x.s = "add" -> [x EXCEPT !.m = SNeg(x.m)]
    [] x.s = "exp" -> [s |-> "log", b |-> x.b]
    [] x.s = "log" -> [s |-> "exp", b |-> x.b]
    [] x.s = "inv" -> x
Undo(p) == [i \in 1..Len(p) |-> InverseStep(p[Len(p) + 1 - i])]

Convertible(a, b) ==
  a.k = "unit" /\ b.k = "unit" /\ (SameDim(a, b) \/ Reciprocal(a, b))
Plan(a, b) ==
  IF SameDim(a, b) THEN a.steps \o Undo(b.steps)
  ELSE a.steps \o <<[s |-> "inv"]>> \o Undo(b.steps)

(* ---- normal form ---- *)
(* Runs of mul/add become one affine step [s: "aff", m: scale, o: offset],    *)
(* x |-> m*x + o; an offset is a function from monomials to integer           *)
(* coefficients (a sum of signed monomials). Inverse neighbours cancel.       *)
OfScale(a) == IF a.sg = 0 THEN None ELSE [x \in {a.m} |-> a.sg]
ScaleOffset(o, a) ==
  \* the offset o multiplied by the scale a
  LET D == { Sum(x, a.m) : x \in DOMAIN o }
  IN [y \in D |-> a.sg * o[CHOOSE x \in DOMAIN o : Sum(x, a.m) = y]]
Affine(x) ==
  IF x.s = "mul" THEN [s |-> "aff", m |-> x.m, o |-> None]
  ELSE [s |-> "aff", m |-> One, o |-> OfScale(x.m)]
Compose(a, b) == \* a first, then b
  [s |-> "aff", m |-> SMul(a.m, b.m), o |-> Sum(ScaleOffset(a.o, b.m), b.o)]
IsId(a) == SameScale(a.m, One) /\ ZeroSum(a.o)

Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)

RECURSIVE Push(_, _)
Push(st, x) ==
  CASE x.s = "aff" ->
         IF st # <<>> /\ Top(st).s = "aff" THEN Push(Pop(st), Compose(Top(st), x))
         ELSE IF IsId(x) THEN st ELSE Append(st, x)
    [] x.s = "exp" ->
         IF st # <<>> /\ Top(st).s = "log" /\ Top(st).b = x.b THEN Pop(st) ELSE Append(st, x)
    [] x.s = "log" ->
         IF st # <<>> /\ Top(st).s = "exp" /\ Top(st).b = x.b THEN Pop(st) ELSE Append(st, x)
    [] x.s = "inv" ->
         IF st # <<>> /\ Top(st).s = "inv" THEN Pop(st)
         ELSE IF Len(st) >= 2 /\ Top(st).s = "aff" /\ ZeroSum(Top(st).o) /\ st[Len(st) - 1].s = "inv"
           THEN Push(Pop(Pop(st)), [s |-> "aff", m |-> SInv(Top(st).m), o |-> None])
         ELSE Append(st, x)

RECURSIVE NormalFrom(_, _, _)
NormalFrom(p, i, st) ==
  IF i > Len(p) THEN st
  ELSE NormalFrom(p, i + 1, Push(st, IF p[i].s \in {"mul", "add"} THEN Affine(p[i]) ELSE p[i]))
Normal(p) == NormalFrom(p, 1, <<>>)

\* Two units are the same: same powers of all basis units, same transformation.
SameStep(x, y) ==
  x = y \/ (x.s = "aff" /\ y.s = "aff" /\ SameScale(x.m, y.m) /\ ZeroSum(Sum(x.o, Minus(y.o))))
SamePlan(p, q) ==
  LET x == Normal(p)
      y == Normal(q)
  IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameStep(x[i], y[i])
SameUnit(a, b) ==
  a.dim = b.dim /\ a.dl = b.dl /\ SamePlan(a.steps, b.steps)
=============================================================================
