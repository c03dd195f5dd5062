----------------------------- MODULE Semantics ------------------------------
(* The meaning of unit text, given the meaning of its identifiers.            *)
(*                                                                            *)
(* A unit denotes: dim, the exponents of the dimensional basis units; dl, the *)
(* exponents of the dimensionless basis units; and steps, which take a value  *)
(* of the unit to the value in basis units:                                   *)
(*   [s: "mul", m: scale]  [s: "add", m: scale]  [s: "exp", b: "2"|"e"|"10"]  *)
(* wild collects what UDUNITS leaves undefined or this library is known to    *)
(* treat differently; such meanings are not compared.                         *)
EXTENDS Parser, Big

\* No meaning: why is the set of reasons, of which any may be reported.
Bad(why) == [k |-> "bad", why |-> {why}]
BadAll(whys) == [k |-> "bad", why |-> whys]
Unit(dim, dl, steps, wild) ==
  [k |-> "unit", dim |-> dim, dl |-> dl, steps |-> steps, wild |-> wild]

HasLog(d) == \E i \in 1..Len(d.steps) : d.steps[i].s = "exp"
HasAdd(d) == \E i \in 1..Len(d.steps) : d.steps[i].s = "add"

\* The scale of a unit when it is used as a factor: offsets are ignored.
RECURSIVE Scale(_)
Scale(steps) ==
  IF steps = <<>> THEN One
  ELSE IF Head(steps).s = "mul" THEN SMul(Head(steps).m, Scale(Tail(steps)))
  ELSE Scale(Tail(steps))

Mul(m) == [s |-> "mul", m |-> m]
Add(m) == [s |-> "add", m |-> m]
Lin(dim, dl, m, wild) ==
  Unit(dim, dl, IF m = One THEN <<>> ELSE <<Mul(m)>>, wild \cup (IF m.sg = 0 THEN {"zero"} ELSE {}))

Number(x) == Lin(None, None, NumScale(x), {})

\* An exponent applied to one factor of a product (-1 for a divisor).
Product(a, b, k) ==
  LET w == a.wild \cup b.wild
      bdim == IF k = 1 THEN b.dim ELSE Minus(b.dim)
      bdl  == IF k = 1 THEN b.dl ELSE Minus(b.dl)
      dim == Sum(a.dim, bdim)
      dl == Sum(a.dl, bdl)
      bs == Scale(b.steps)
      bm == IF k = 1 THEN bs ELSE IF bs.sg = 0 THEN Zero ELSE SInv(bs)
  IN IF ~HasLog(a) /\ ~HasLog(b) THEN Lin(dim, dl, SMul(Scale(a.steps), bm), w)
     ELSE IF HasLog(a) /\ ~HasLog(b) /\ b.dim = None /\ b.dl = None
       THEN Unit(dim, dl, <<Mul(bm)>> \o a.steps, w \cup {"scaledlog"})
     ELSE IF HasLog(b) /\ ~HasLog(a) /\ a.dim = None /\ a.dl = None /\ k = 1
       THEN Unit(dim, dl, <<Mul(Scale(a.steps))>> \o b.steps, w \cup {"scaledlog"})
     ELSE Unit(dim, dl, <<>>, w \cup {"logprod"})

Power(a, k) ==
  IF HasLog(a) THEN Unit(Times(a.dim, k), Times(a.dl, k), <<>>, a.wild \cup {"logpow"})
  ELSE Lin(Times(a.dim, k), Times(a.dl, k), SPow(Scale(a.steps), k), a.wild)

Shifted(a, m) ==
  [a EXCEPT !.steps = IF m.sg = 0 THEN a.steps ELSE <<Add(m)>> \o a.steps]

LogBase(f) == IF f = <<108, 98>> THEN "2" ELSE IF f = <<108, 110>> THEN "e" ELSE "10"
LogOf(a, f) ==
  [a EXCEPT !.steps = <<[s |-> "exp", b |-> LogBase(f)]>> \o a.steps,
            !.wild = a.wild \cup (IF HasAdd(a) THEN {"logshift"} ELSE {})
                            \cup (IF Scale(a.steps).sg < 0 THEN {"lognegative"} ELSE {})]

\* A prefix rescales a unit and keeps its origin.
Prefixed(m, a) ==
  IF HasLog(a) THEN Unit(a.dim, a.dl, <<Mul(m)>> \o a.steps, a.wild \cup {"scaledlog"})
  ELSE IF HasAdd(a) THEN [a EXCEPT !.steps = <<Mul(m)>> \o a.steps]
  ELSE Lin(a.dim, a.dl, SMul(m, Scale(a.steps)), a.wild)

IsTime(d, time) == \E b \in time : d.dim = [x \in {b} |-> 1]

(* n: tree; env: identifier -> denotation; time: the names of time basis      *)
(* units; root: an outermost shift of a time unit makes a date unit here.     *)
RECURSIVE Denote(_, _, _, _)
Denote(n, env, time, root) ==
  CASE n.op = "error" -> Bad("syntax")
    [] n.op = "empty" -> Lin(None, None, One, {})
    [] n.op = "num" -> Number(n.x)
    [] n.op = "id" -> env[n.x]
    [] n.op \in {"mul", "div"} ->
         LET a == Denote(n.l, env, time, FALSE)
             b == Denote(n.r, env, time, FALSE)
         IN IF a.k = "bad" THEN a ELSE IF b.k = "bad" THEN b
            ELSE Product(a, b, IF n.op = "mul" THEN 1 ELSE -1)
    [] n.op = "pow" ->
         LET a == Denote(n.l, env, time, FALSE) IN IF a.k = "bad" THEN a ELSE Power(a, n.k)
    [] n.op = "log" ->
         LET a == Denote(n.l, env, time, FALSE) IN IF a.k = "bad" THEN a ELSE LogOf(a, n.f)
    [] n.op = "shift" ->
         LET a == Denote(n.l, env, time, FALSE)
         IN IF a.k = "bad" THEN a
            ELSE IF IsTime(a, time)
              THEN IF root THEN [k |-> "date", unit |-> a, ref |-> n.x] ELSE Bad("value")
            ELSE Shifted(a, NumScale(n.x))
    [] n.op = "date" ->
         LET a == Denote(n.l, env, time, FALSE)
         IN IF a.k = "bad" THEN a
            ELSE IF root /\ IsTime(a, time) THEN [k |-> "date", unit |-> a, ref |-> n.x]
            ELSE Bad("value")

\* Identifiers without a meaning are reported before anything else.
Meaning(n, env, time, root) ==
  IF n.op = "error" THEN Bad("syntax")
  ELSE LET bads == { x \in DOMAIN env : env[x].k = "bad" }
       IN IF bads # {} THEN BadAll(UNION { env[x].why : x \in bads })
          ELSE Denote(n, env, time, root)

\* Units denote the same: same basis powers, same steps.
SameDim(a, b) == a.dim = b.dim
Reciprocal(a, b) == a.dim = Minus(b.dim)

(* ---- free canonical form: the meaning of text, identifiers left open ---- *)
(* A set-like product of factors: function from factor to exponent, where a   *)
(* factor is an identifier, a number atom, or a bracketed shift or logarithm. *)
RECURSIVE Canon(_)
Canon(n) ==
  LET F(x) == [sg |-> 1, m |-> [y \in {x} |-> 1]]
      N(x) == LET v == NumScale(x)
              IN [sg |-> v.sg, m |-> [y \in {<<"n", a>> : a \in DOMAIN v.m} |-> v.m[y[2]]]]
  IN CASE n.op = "empty" -> One
       [] n.op = "num" -> N(n.x)
       [] n.op = "id" -> F(<<"i", n.x>>)
       [] n.op = "mul" -> SMul(Canon(n.l), Canon(n.r))
       [] n.op = "div" -> LET r == Canon(n.r) IN SMul(Canon(n.l), IF r.sg = 0 THEN F(<<"z">>) ELSE SInv(r))
       [] n.op = "pow" -> SPow(Canon(n.l), n.k)
       [] n.op = "log" -> F(<<"l", LogBase(n.f), Canon(n.l)>>)
       [] n.op = "shift" -> F(<<"s", Canon(n.l), NumScale(n.x)>>)
       [] n.op = "date" -> F(<<"d", Canon(n.l), n.x>>)
=============================================================================
