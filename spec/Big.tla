-------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits), as sequences of *)
(* limbs in base 1000, lowest first, without zeros at the end; and whether a  *)
(* sum of signed monomials is zero.                                           *)
EXTENDS Algebra

RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % 1000>> \o Limbs(n \div 1000)

LimbAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN Limbs(carry)
  ELSE LET s == LimbAt(a, i) + LimbAt(b, i) + carry
       IN <<s % 1000>> \o AddFrom(a, b, i + 1, s \div 1000)
BigAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, k, i, carry) == \* a * k, for k < 1000
  IF i > Len(a) THEN Limbs(carry)
  ELSE LET s == a[i] * k + carry IN <<s % 1000>> \o ScaleFrom(a, k, i + 1, s \div 1000)
RECURSIVE BigMul(_, _)
BigMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET rest == BigMul(a, Tail(b))
       IN BigAdd(IF b[1] = 0 THEN <<>> ELSE ScaleFrom(a, b[1], 1, 0), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
RECURSIVE BigPow(_, _)
BigPow(a, k) == IF k = 0 THEN <<1>>
                ELSE LET h == BigPow(a, k \div 2)
                         s == BigMul(h, h)
                     IN IF k % 2 = 0 THEN s ELSE BigMul(s, a)

RECURSIVE DigitsBig(_)
DigitsBig(d) == \* decimal digits, without leading zeros
  IF d = <<>> THEN <<>>
  ELSE IF Len(d) <= 3 THEN Limbs(DigitsValue(d))
  ELSE <<DigitsValue(SubSeq(d, Len(d) - 2, Len(d)))>> \o DigitsBig(SubSeq(d, 1, Len(d) - 3))
AtomBig(a) == IF a[1] = -1 THEN DigitsBig(Tail(a)) ELSE Limbs(a[1])

\* The product of the atoms of x, with exponents less those of g.
RECURSIVE Product0(_, _, _)
Product0(S, x, g) ==
  IF S = {} THEN <<1>>
  ELSE LET a == CHOOSE a \in S : TRUE
       IN BigMul(Product0(S \ {a}, x, g), BigPow(AtomBig(a), Exp(x, a) - g[a]))
RECURSIVE Total(_, _, _, _)
Total(S, o, A, g) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : TRUE
       IN BigAdd(Total(S \ {x}, o, A, g),
                 BigMul(Limbs(IF o[x] < 0 THEN -o[x] ELSE o[x]), Product0(A, x, g)))

\* An atom which is possibly not a prime.
Opaque(x) == x[1] = -1 \/ x[1] > 1000000

\* o: monomials to non-zero integer coefficients.
ZeroSum(o) ==
  \/ DOMAIN o = {}
  \/ /\ Cardinality(DOMAIN o) > 1
     /\ LET A == UNION { DOMAIN x : x \in DOMAIN o }
            g == [a \in A |-> LET E == { Exp(x, a) : x \in DOMAIN o }
                              IN CHOOSE e \in E : \A f \in E : e <= f]
        IN \* (monomials which are this far apart do not cancel)
          /\ \A a \in A, x \in DOMAIN o : Exp(x, a) - g[a] <= 2000
          /\ Total({x \in DOMAIN o : o[x] > 0}, o, A, g) = Total({x \in DOMAIN o : o[x] < 0}, o, A, g)

\* The same number (whose digits may have been factored differently).
SameScale(a, b) ==
  \/ a = b
  \/ /\ a.sg = b.sg /\ a.sg # 0 /\ a.m # b.m
     /\ (\E x \in DOMAIN a.m \cup DOMAIN b.m : Opaque(x))
     /\ ZeroSum([x \in {a.m, b.m} |-> IF x = a.m THEN 1 ELSE -1])
=============================================================================
