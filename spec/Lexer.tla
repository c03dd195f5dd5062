------------------------------- MODULE Lexer --------------------------------
(* Characters -> tokens. The lexer is a state machine with three modes:       *)
(*   "D"  plain unit text                                                     *)
(*   "I"  directly after an identifier or an explicit exponent: here a period *)
(*        multiplies and never belongs to a number                            *)
(*   "S"  after a shift operator: dates, clocks and time zones are tokens     *)
(* The longest match wins, and of equally long ones the first rule.           *)
EXTENDS Text

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxOr0(S) == IF S = {} THEN 0 ELSE Largest(S)

\* Every Xxx(s, i) below is the position after the longest match at i, or 0.
IntEnd(s, i) == LET e == RunDigits(s, i) IN IF e > i THEN e ELSE 0
IsSign(c) == c = 43 \/ c = 45
SignedEnd(s, i) == IF IsSign(At(s, i)) THEN IntEnd(s, i + 1) ELSE 0
AnyIntEnd(s, i) == IF IsSign(At(s, i)) THEN IntEnd(s, i + 1) ELSE IntEnd(s, i)
EPowerEnd(s, i) == IF At(s, i) \in {69, 101} THEN AnyIntEnd(s, i + 1) ELSE 0

FloatEnd(s, i) ==
  LET a == AnyIntEnd(s, i)
      WithE(j) == LET e == EPowerEnd(s, j) IN IF e > 0 THEN e ELSE j
      \* 1. 1.5 1.e5 1.5e5
      A == IF a > 0 /\ At(s, a) = 46 THEN WithE(RunDigits(s, a + 1)) ELSE 0
      \* .5 .5e5
      B == IF At(s, i) = 46 /\ IntEnd(s, i + 1) > 0 THEN WithE(RunDigits(s, i + 1)) ELSE 0
      \* 1e5
      C == IF a > 0 THEN EPowerEnd(s, a) ELSE 0
  IN MaxOr0({A, B, C})

PER1 == <<32, 80, 69, 82, 32>>
PER2 == <<32, 112, 101, 114, 32>>
DivideEnd(s, i) ==
  LET k == RunSpaces(s, i)
      A == IF At(s, k) = 47 THEN RunSpaces(s, k + 1) ELSE 0
      B == IF k > i /\ (Has(s, k - 1, PER1) \/ Has(s, k - 1, PER2))
             THEN RunSpaces(s, k + 4) ELSE 0
  IN MaxOr0({A, B})

ShiftWords == { <<64>>, <<97, 102, 116, 101, 114>>, <<102, 114, 111, 109>>,
                <<115, 105, 110, 99, 101>>, <<114, 101, 102>> }
ShiftEnd(s, i) == MaxOr0({ i + Len(w) : w \in {v \in ShiftWords : Has(s, i, v)} })

LogWords == { <<108, 111, 103>>, <<108, 103>>, <<108, 110>>, <<108, 98>> }
LogEnd(s, i) ==
  MaxOr0({ LET j == RunSpaces(s, i + Len(w))
               k == RunSpaces(s, j + 1)
               m == IF At(s, k + 2) = 58 THEN k + 3 ELSE k + 2
           IN IF At(s, j) = 40 /\ (Has(s, k, <<82, 69>>) \/ Has(s, k, <<114, 101>>))
                THEN RunSpaces(s, m) ELSE 0
         : w \in {v \in LogWords : Has(s, i, v)} })

RaiseEnd(s, i) == IF At(s, i) = 94 THEN i + 1
                  ELSE IF Has(s, i, <<42, 42>>) THEN i + 2 ELSE 0
OneOf(s, i, S) == IF At(s, i) \in S THEN i + 1 ELSE 0
IdEnd(s, i) == LET e == RunLetters(s, i) IN IF e > i THEN e ELSE 0
SuperEnd(s, i) == LET e == RunSuper(s, i) IN IF e > i THEN e ELSE 0

(* Dates and clocks: the fragments are ambiguous, so these are sets of ends. *)
Dig(s, i, lo, hi) == At(s, i) >= 48 + lo /\ At(s, i) <= 48 + hi
HourEnds(s, i) ==
  LET k == IF IsSign(At(s, i)) THEN i + 1 ELSE i
  IN (IF Dig(s, k, 0, 9) THEN {k + 1} ELSE {})
     \cup (IF Dig(s, k, 0, 1) /\ Dig(s, k + 1, 0, 9) THEN {k + 2} ELSE {})
     \cup (IF Dig(s, i, 2, 2) /\ Dig(s, i + 1, 0, 3) THEN {i + 2} ELSE {})
MinuteEnds(s, i) ==
  (IF Dig(s, i, 0, 9) THEN {i + 1} ELSE {})
  \cup (IF Dig(s, i, 0, 5) /\ Dig(s, i + 1, 0, 9) THEN {i + 2} ELSE {})
SecondEnds(s, i) ==
  LET whole == MinuteEnds(s, i)
               \cup (IF Has(s, i, <<54, 48>>) THEN {i + 2} ELSE {})
  IN whole \cup UNION { IF At(s, e) = 46 THEN (e + 1)..RunDigits(s, e + 1) ELSE {} : e \in whole }
MonthEnds(s, i) ==
  (IF Dig(s, i, 1, 9) THEN {i + 1} ELSE {})
  \cup (IF Dig(s, i, 0, 0) /\ Dig(s, i + 1, 1, 9) THEN {i + 2} ELSE {})
  \cup (IF Dig(s, i, 1, 1) /\ Dig(s, i + 1, 0, 2) THEN {i + 2} ELSE {})
DayEnds(s, i) ==
  (IF Dig(s, i, 1, 9) THEN {i + 1} ELSE {})
  \cup (IF Dig(s, i, 0, 0) /\ Dig(s, i + 1, 1, 9) THEN {i + 2} ELSE {})
  \cup (IF Dig(s, i, 1, 2) /\ Dig(s, i + 1, 0, 9) THEN {i + 2} ELSE {})
  \cup (IF Dig(s, i, 3, 3) /\ Dig(s, i + 1, 0, 1) THEN {i + 2} ELSE {})
After(S, s, c) == { e + 1 : e \in {x \in S : At(s, x) = c} }

HourMinuteEnds(s, i) == UNION { MinuteEnds(s, j) : j \in After(HourEnds(s, i), s, 58) }
HourMinuteSecondEnds(s, i) ==
  UNION { SecondEnds(s, j) : j \in After(HourMinuteEnds(s, i), s, 58) }
YearEnd(s, i) == AnyIntEnd(s, i)
DateEnds(s, i) ==
  LET y == YearEnd(s, i)
      m == IF y > 0 /\ At(s, y) = 45 THEN MonthEnds(s, y + 1) ELSE {}
  IN m \cup UNION { DayEnds(s, j) : j \in After(m, s, 45) }
ClockEnds(s, i) ==
  LET h == HourEnds(s, i)
      m == UNION { MinuteEnds(s, j) : j \in h }
  IN h \cup m \cup UNION { SecondEnds(s, j) : j \in m }
TimestampEnd(s, i) ==
  LET y == YearEnd(s, i)
  IN IF y > 0 /\ At(s, y) = 84 THEN MaxOr0(ClockEnds(s, y + 1)) ELSE 0

Words(s, i, S) == MaxOr0({ i + Len(w) : w \in {v \in S : Has(s, i, v)} })
UTC == <<85, 84, 67>>
GMT == <<71, 77, 84>>

R(t, e) == [t |-> t, e |-> e]
If(c, r) == IF c THEN <<r>> ELSE <<>>

\* The rules which can match at i, by its first character; float: whether a
\* number may have a fraction or power of ten.
PlainRules(s, i, float) ==
  LET c == s[i]
  IN CASE IsLetter(c) ->
            If(c \in {69, 101}, R("BAD", EPowerEnd(s, i)))
            \o If(c \in {97, 102, 114, 115}, R("SHIFT", ShiftEnd(s, i)))
            \o If(c = 108, R("LOG", LogEnd(s, i)))
            \o <<R("ID", RunLetters(s, i))>>
       [] IsDigit(c) -> <<R("INT", RunDigits(s, i))>> \o If(float, R("FLOAT", FloatEnd(s, i)))
       [] IsSign(c) -> <<R("INT", SignedEnd(s, i)), R(IF c = 45 THEN "MUL" ELSE "BAD", i + 1)>>
                       \o If(float, R("FLOAT", FloatEnd(s, i)))
       [] c = 46 -> <<R("MUL", i + 1)>> \o If(float, R("FLOAT", FloatEnd(s, i)))
       [] c = 32 -> <<R("DIV", DivideEnd(s, i)), R("WS", i + 1)>>
       [] c = 47 -> <<R("DIV", DivideEnd(s, i))>>
       [] c = 42 -> <<R("MUL", i + 1), R("RAISE", RaiseEnd(s, i))>>
       [] c = 183 -> <<R("MUL", i + 1)>>
       [] c = 94 -> <<R("RAISE", i + 1)>>
       [] c = 40 -> <<R("OPEN", i + 1)>>
       [] c = 41 -> <<R("CLOSE", i + 1)>>
       [] c = 64 -> <<R("SHIFT", i + 1)>>
       [] IsSuper(c) -> <<R("SUPER", RunSuper(s, i))>>
       [] OTHER -> <<R("BAD", i + 1)>>

Plain(s, i) == PlainRules(s, i, TRUE)
AfterId(s, i) == PlainRules(s, i, FALSE)

InShift(s, i) ==
  LET c == s[i]
      z == If(c \in {71, 84, 85, 90}, R("ZONE", Words(s, i, {UTC, <<90>>, GMT})))
           \o If(c = 84, R("TZ", Words(s, i, {<<84, 90>>})))
      d == IF IsDigit(c) \/ IsSign(c)
             THEN << R("HMS", MaxOr0(HourMinuteSecondEnds(s, i))),
                     R("HM", MaxOr0(HourMinuteEnds(s, i))) >>
                  \o If(c = 45, R("BAD", i + 1))
                  \o << R("DATE", MaxOr0(DateEnds(s, i))) >>
             ELSE <<>>
      t == If(c = 84, R("T", i + 1))
      st == If(IsDigit(c) \/ IsSign(c), R("STAMP", TimestampEnd(s, i)))
  IN z \o d \o t \o st \o Plain(s, i)

Rules(s, i, mode) ==
  CASE mode = "D" -> Plain(s, i)
    [] mode = "I" -> AfterId(s, i)
    [] mode = "S" -> InShift(s, i)

\* Index of the first of the longest matches.
RECURSIVE Best(_, _, _)
Best(rules, k, b) ==
  IF k > Len(rules) THEN b
  ELSE Best(rules, k + 1, IF rules[k].e > rules[b].e THEN k ELSE b)

NextMode(mode, last, t) ==
  CASE t = "SHIFT" -> "S"
    [] t = "CLOSE" -> "D"
    [] t = "RAISE" \/ (last = "RAISE" /\ t = "INT") -> "I"
    [] mode = "S" -> "S"
    [] mode = "D" /\ t = "ID" -> "I"
    [] OTHER -> "D"

RECURSIVE LexFrom(_, _, _, _, _)
LexFrom(s, i, mode, last, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET rules == Rules(s, i, mode)
           r == rules[Best(rules, 2, 1)]
       IN LexFrom(s, r.e, NextMode(mode, last, r.t), r.t,
                  Append(acc, [t |-> r.t, x |-> SubSeq(s, i, r.e - 1)]))

\* The tokens of a (stripped) text.
Lex(s) == LexFrom(s, 1, "D", "", <<>>)
=============================================================================
