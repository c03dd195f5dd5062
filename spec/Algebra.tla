------------------------------ MODULE Algebra -------------------------------
(* Exact scales. A scale is a sign and a monomial: a function from atoms to   *)
(* non-zero integer exponents. An atom is <<p>> for a prime (or a cofactor    *)
(* without small prime divisors), or <<-1>> \o digits for the digits of a     *)
(* number too long to be factorised. Dimensions use the same functions, from  *)
(* names of basis units.                                                      *)
EXTENDS Text

None == [x \in {} |-> 0]

Keep(f) == [x \in {y \in DOMAIN f : f[y] # 0} |-> f[x]]
Exp(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Sum(f, g) ==
  IF DOMAIN f = {} THEN g
  ELSE IF DOMAIN g = {} THEN f
  ELSE TLCEval(Keep(TLCEval([x \in DOMAIN f \cup DOMAIN g |-> Clamp(Exp(f, x) + Exp(g, x))])))
Times(f, k) == IF k = 0 THEN None ELSE [x \in DOMAIN f |-> SafeMul(k, f[x])]
Minus(f) == [x \in DOMAIN f |-> -f[x]]

One == [sg |-> 1, m |-> None]
Zero == [sg |-> 0, m |-> None]

SMul(a, b) == IF a.sg = 0 \/ b.sg = 0 THEN Zero ELSE [sg |-> a.sg * b.sg, m |-> Sum(a.m, b.m)]
SInv(a) == [sg |-> a.sg, m |-> Minus(a.m)]
SPow(a, k) ==
  IF k = 0 THEN One
  ELSE IF a.sg = 0 THEN Zero
  ELSE [sg |-> IF k % 2 = 0 THEN 1 ELSE a.sg, m |-> Times(a.m, k)]
SNeg(a) == [sg |-> -a.sg, m |-> a.m]

\* Trial division by 2, 3, 5, 7, ... below 1000.
RECURSIVE FactorFrom(_, _, _)
FactorFrom(n, p, acc) ==
  IF n = 1 THEN acc
  ELSE IF p * p > n \/ p > 1000 THEN Sum(acc, [x \in {<<n>>} |-> 1])
  ELSE IF n % p = 0 THEN FactorFrom(n \div p, p, Sum(acc, [x \in {<<p>>} |-> 1]))
  ELSE FactorFrom(n, IF p = 2 THEN 3 ELSE p + 2, acc)
Factor(n) == FactorFrom(n, 2, None)

Ten(k) == IF k = 0 THEN None ELSE [x \in {<<2>>, <<5>>} |-> k]

\* The value of an integer, and of a number's text: [sign] digits [. digits] [e int]
IntScale(n) == IF n = 0 THEN Zero
               ELSE [sg |-> IF n < 0 THEN -1 ELSE 1, m |-> Factor(IF n < 0 THEN -n ELSE n)]

Position(s, S) == IF \E i \in 1..Len(s) : s[i] \in S
                    THEN CHOOSE i \in 1..Len(s) : s[i] \in S /\ \A j \in 1..(i - 1) : s[j] \notin S
                    ELSE Len(s) + 1
SignedValue(x) == IF x[1] = 45 THEN -DigitsValue(Tail(x))
                  ELSE IF x[1] = 43 THEN DigitsValue(Tail(x)) ELSE DigitsValue(x)
NumScale(x) ==
  LET neg   == x[1] = 45
      body  == IF x[1] \in {43, 45} THEN Tail(x) ELSE x
      e     == Position(body, {69, 101})
      e10   == IF e > Len(body) THEN 0 ELSE SignedValue(SubSeq(body, e + 1, Len(body)))
      coef  == SubSeq(body, 1, e - 1)
      dot   == Position(coef, {46})
      whole == SubSeq(coef, 1, dot - 1)
      frac  == IF dot > Len(coef) THEN <<>> ELSE SubSeq(coef, dot + 1, Len(coef))
      all   == whole \o frac
      digits == DropZeros(all)
      mant  == DropEndZeros(digits)
      k     == Clamp(e10 - Len(frac) + (Len(digits) - Len(mant)))
  IN IF mant = <<>> THEN Zero
     ELSE [sg |-> IF neg THEN -1 ELSE 1,
           m |-> Sum(Ten(k), IF Len(mant) <= 9 THEN Factor(DigitsValue(mant))
                             ELSE [y \in {<<-1>> \o mant} |-> 1])]
=============================================================================
