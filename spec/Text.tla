-------------------------------- MODULE Text --------------------------------
(* Unit text is a sequence of Unicode code points (naturals). This module     *)
(* names the character classes of the UDUNITS grammar.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsDigit(c) == c >= 48 /\ c <= 57

\* Further letters: percent, quotes, primes, Greek mu, ohm, angstrom, the
\* one-character degree Celsius and Fahrenheit.
ExtraLetters == {37, 39, 34, 8242, 8243, 956, 8486, 8491, 8451, 8457}

IsLetter(c) ==
  \/ c >= 65 /\ c <= 90
  \/ c >= 97 /\ c <= 122
  \/ c = 95
  \/ c >= 192 /\ c <= 214
  \/ c >= 216 /\ c <= 246
  \/ c >= 248 /\ c <= 255
  \/ c \in {128, 173, 176, 181, 960, 937}
  \/ c \in ExtraLetters

SuperMinus == 8315
SuperPlus  == 8314
SuperDigits == <<8304, 185, 178, 179, 8308, 8309, 8310, 8311, 8312, 8313>>
IsSuperDigit(c) == c \in {8304, 185, 178, 179} \/ (c >= 8308 /\ c <= 8313)
IsSuper(c) == IsSuperDigit(c) \/ c = SuperMinus \/ c = SuperPlus
SuperValue(c) == CHOOSE d \in 0..9 : SuperDigits[d + 1] = c

\* What surrounds unit text without being part of it.
IsBlank(c) ==
  \/ c >= 9 /\ c <= 13
  \/ c >= 28 /\ c <= 32
  \/ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
  \/ c >= 8192 /\ c <= 8202

RECURSIVE StripLeft(_)
StripLeft(s) == IF s # <<>> /\ IsBlank(s[1]) THEN StripLeft(Tail(s)) ELSE s
RECURSIVE StripRight(_)
StripRight(s) ==
  IF s # <<>> /\ IsBlank(s[Len(s)]) THEN StripRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripRight(StripLeft(s))

\* ch(s, i): the code point at i, or -1 beyond the end.
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

\* The word w occurs in s at position i.
Has(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w

RECURSIVE RunDigits(_, _)
RunDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN RunDigits(s, i + 1) ELSE i
RECURSIVE RunLetters(_, _)
RunLetters(s, i) == IF i <= Len(s) /\ IsLetter(s[i]) THEN RunLetters(s, i + 1) ELSE i
RECURSIVE RunSuper(_, _)
RunSuper(s, i) == IF i <= Len(s) /\ IsSuper(s[i]) THEN RunSuper(s, i + 1) ELSE i
RECURSIVE RunSpaces(_, _)
RunSpaces(s, i) == IF i <= Len(s) /\ s[i] = 32 THEN RunSpaces(s, i + 1) ELSE i

RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s

\* Decimal value of a digit sequence. Integers saturate at Huge.
Huge == 1000000000
RECURSIVE ShortValue(_)
ShortValue(s) ==
  IF s = <<>> THEN 0 ELSE 10 * ShortValue(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
DigitsValue(s) == LET d == DropZeros(s) IN IF Len(d) > 9 THEN Huge ELSE ShortValue(d)
Clamp(n) == IF n > Huge THEN Huge ELSE IF n < -Huge THEN -Huge ELSE n
SafeMul(j, k) ==
  IF j = 0 \/ k = 0 THEN 0
  ELSE LET a == IF j < 0 THEN -j ELSE j
           b == IF k < 0 THEN -k ELSE k
           sg == IF (j < 0) = (k < 0) THEN 1 ELSE -1
       IN IF a > Huge \div b THEN sg * Huge ELSE j * k
RECURSIVE DropEndZeros(_)
DropEndZeros(s) ==
  IF s # <<>> /\ s[Len(s)] = 48 THEN DropEndZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)
=============================================================================
