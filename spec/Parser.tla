------------------------------- MODULE Parser -------------------------------
(* Tokens -> syntax tree. Trees:                                              *)
(*   [op: "empty"]  [op: "num", x: text]  [op: "id", x: text]                 *)
(*   [op: "mul"|"div", l, r]  [op: "pow", l, k: Int]                          *)
(*   [op: "log", f: word, l]  [op: "shift", l, x: number text]                *)
(*   [op: "date", l, x: timestamp text]                                       *)
(* A failed parse is [op: "error"].                                           *)
EXTENDS Lexer

Error == [op |-> "error"]
Fail == [ok |-> FALSE, n |-> Error, i |-> 0]
Done(node, i) == [ok |-> TRUE, n |-> node, i |-> i]

Tok(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE "EOF"

IntValue(x) == IF x[1] = 45 THEN -DigitsValue(Tail(x))
               ELSE IF x[1] = 43 THEN DigitsValue(Tail(x)) ELSE DigitsValue(x)

\* A superscript exponent: an optional sign followed by digits.
SuperOk(x) ==
  LET d == IF x[1] \in {SuperMinus, SuperPlus} THEN Tail(x) ELSE x
  IN d # <<>> /\ \A i \in 1..Len(d) : IsSuperDigit(d[i])
SuperInt(x) ==
  LET d == IF x[1] \in {SuperMinus, SuperPlus} THEN Tail(x) ELSE x
      v == DigitsValue([i \in 1..Len(d) |-> 48 + SuperValue(d[i])])
  IN IF x[1] = SuperMinus THEN -v ELSE v

LogWord(x) == CHOOSE w \in LogWords : Has(x, 1, w)

StartsPower(t) == t \in {"ID", "OPEN", "INT", "FLOAT", "LOG"}

RECURSIVE SkipWS(_, _)
SkipWS(ts, i) == IF Tok(ts, i) = "WS" THEN SkipWS(ts, i + 1) ELSE i

(* Timestamps: the set of positions at which one starting at i can end. *)
Opt(S, ts, kinds) == S \cup { j + 1 : j \in {x \in S : Tok(ts, x) \in kinds} }
Then(S, ts, kinds) == { j + 1 : j \in {x \in S : Tok(ts, x) \in kinds} }
StampEnds(ts, i) ==
  LET d   == Then({i}, ts, {"DATE", "INT"})
      \* date [space|T] clock [space] [zone]
      c   == Then(Opt(d, ts, {"WS", "T"}), ts, {"HMS", "HM", "INT"})
      cz  == Opt(Opt(c, ts, {"WS"}), ts, {"HM", "INT", "ZONE"})
      \* packed date directly followed by a zone
      p   == Opt(Then({i}, ts, {"INT"}), ts, {"HM", "INT", "ZONE"})
      \* packed date and clock
      st  == Opt(Opt(Then({i}, ts, {"STAMP"}), ts, {"WS"}), ts, {"HM", "INT", "ZONE"})
      \* date with a zone only
      dz  == Then(Opt(d, ts, {"WS"}), ts, {"ZONE", "TZ"})
  IN d \cup cz \cup p \cup st \cup dz

RECURSIVE TokText(_, _, _)
TokText(ts, i, j) == IF i >= j THEN <<>> ELSE ts[i].x \o TokText(ts, i + 1, j)

RECURSIVE PSpec(_, _, _), PTail(_, _, _), PPower(_, _), PLog(_, _), PBasic(_, _)

\* A product with an optional shift, ending at the token `close`.
PSpec(ts, i, close) ==
  LET p == PPower(ts, i)
      q == IF p.ok THEN PTail(ts, p.n, p.i) ELSE Fail
      j == IF Tok(ts, q.i) = "WS" THEN q.i + 1 ELSE q.i
  IN IF ~q.ok THEN Fail
     ELSE IF Tok(ts, q.i) = close THEN q
     ELSE IF Tok(ts, j) # "SHIFT" THEN Fail
     ELSE LET k == IF Tok(ts, j + 1) = "WS" THEN j + 2 ELSE j + 1
              ends == { e \in StampEnds(ts, k) : Tok(ts, e) = close }
          IN IF Tok(ts, k) \in {"INT", "FLOAT"} /\ Tok(ts, k + 1) = close
               THEN Done([op |-> "shift", l |-> q.n, x |-> ts[k].x], k + 1)
             ELSE IF ends # {}
               THEN LET e == Largest(ends)
                    IN Done([op |-> "date", l |-> q.n, x |-> TokText(ts, k, e)], e)
             ELSE Fail

\* The rest of a product whose part so far is `node`: left associative.
PTail(ts, node, i) ==
  LET t == Tok(ts, i)
      w == SkipWS(ts, i)
      Go(op, j) == LET p == PPower(ts, j)
                   IN IF p.ok THEN PTail(ts, [op |-> op, l |-> node, r |-> p.n], p.i) ELSE Fail
  IN CASE t = "MUL" -> Go("mul", i + 1)
       [] t = "DIV" -> Go("div", i + 1)
       [] StartsPower(t) -> Go("mul", i)
       [] t = "WS" /\ StartsPower(Tok(ts, w)) -> Go("mul", w)
       [] OTHER -> Done(node, i)

\* An integer directly after is the exponent, unless it is itself raised.
PPower(ts, i) ==
  LET b == PLog(ts, i)
      t == Tok(ts, b.i)
  IN IF ~b.ok THEN Fail
     ELSE IF t = "INT" /\ Tok(ts, b.i + 1) \notin {"RAISE", "SUPER"}
       THEN Done([op |-> "pow", l |-> b.n, k |-> IntValue(ts[b.i].x)], b.i + 1)
     ELSE IF t = "RAISE"
       THEN IF Tok(ts, b.i + 1) = "INT"
              THEN Done([op |-> "pow", l |-> b.n, k |-> IntValue(ts[b.i + 1].x)], b.i + 2)
              ELSE Fail
     ELSE IF t = "SUPER"
       THEN IF SuperOk(ts[b.i].x)
              THEN Done([op |-> "pow", l |-> b.n, k |-> SuperInt(ts[b.i].x)], b.i + 1)
              ELSE Fail
     ELSE b

PLog(ts, i) ==
  IF Tok(ts, i) = "LOG"
    THEN LET p == PSpec(ts, i + 1, "CLOSE")
         IN IF p.ok THEN Done([op |-> "log", f |-> LogWord(ts[i].x), l |-> p.n], p.i + 1) ELSE Fail
    ELSE PBasic(ts, i)

PBasic(ts, i) ==
  CASE Tok(ts, i) = "ID" -> Done([op |-> "id", x |-> ts[i].x], i + 1)
    [] Tok(ts, i) \in {"INT", "FLOAT"} -> Done([op |-> "num", x |-> ts[i].x], i + 1)
    [] Tok(ts, i) = "OPEN" ->
         LET p == PSpec(ts, i + 1, "CLOSE") IN IF p.ok THEN Done(p.n, p.i + 1) ELSE Fail
    [] OTHER -> Fail

\* Numbers which are not represented: integers of over 4300 digits, powers of
\* ten whose exponent has over 18 digits.
Unsigned(x) == IF x # <<>> /\ (IsSign(x[1]) \/ x[1] \in {SuperMinus, SuperPlus}) THEN Tail(x) ELSE x
RECURSIVE Significant(_)
Significant(x) == IF x # <<>> /\ x[1] = 48 THEN Significant(Tail(x)) ELSE Len(x)
OutOfRange(tok) ==
  CASE tok.t \in {"INT", "SUPER"} -> Len(tok.x) > 4300 /\ Len(Unsigned(tok.x)) > 4300
    [] tok.t = "FLOAT" ->
         \E i \in 1..Len(tok.x) : tok.x[i] \in {69, 101} /\ Significant(Unsigned(SubSeq(tok.x, i + 1, Len(tok.x)))) > 18
    [] OTHER -> FALSE

Parse(text) ==
  LET s == Strip(text)
  IN IF s = <<>> THEN [op |-> "empty"]
     ELSE LET ts == TLCEval(Lex(s))
              p == PSpec(ts, 1, "EOF")
          IN IF ~p.ok THEN Error
             ELSE IF \E i \in 1..Len(ts) : OutOfRange(ts[i]) THEN Error
             ELSE p.n

(* ---- printing: the canonical text ---- *)
RECURSIVE Show(_)
InBrackets(n, ops) == IF n.op \in ops THEN <<40>> \o Show(n) \o <<41>> ELSE Show(n)
Show(n) ==
  CASE n.op = "empty" -> <<>>
    [] n.op \in {"num", "id"} -> n.x
    [] n.op = "mul" -> Show(n.l) \o <<183>> \o Show(n.r)
    [] n.op = "div" -> Show(n.l) \o <<47>> \o InBrackets(n.r, {"mul", "div"})
    [] n.op = "pow" -> InBrackets(n.l, {"mul", "div", "pow"}) \o <<94>> \o IntText(n.k)
    [] n.op = "log" -> <<40>> \o n.f \o <<40, 114, 101, 32>> \o Show(n.l) \o <<41, 41>>
    [] n.op \in {"shift", "date"} ->
         <<40>> \o Show(n.l) \o <<32, 64, 32>> \o n.x \o <<41>>

RECURSIVE Idents(_)
Idents(n) ==
  CASE n.op \in {"empty", "num", "error"} -> {}
    [] n.op = "id" -> {n.x}
    [] n.op \in {"mul", "div"} -> Idents(n.l) \cup Idents(n.r)
    [] OTHER -> Idents(n.l)
=============================================================================
