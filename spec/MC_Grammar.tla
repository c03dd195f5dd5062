----------------------------- MODULE MC_Grammar -----------------------------
(* The grammar on the specification: all texts of up to Depth pieces, where   *)
(* the pieces are characteristic for every kind of token, and the readings of *)
(* what has been written so far.                                              *)
EXTENDS Semantics

CONSTANTS Depth, Wide
VARIABLES text, steps
vars == <<text, steps>>

Few == { <<109>>, <<115>>, <<50>>, <<45, 51>>, <<49, 46>>, <<32>>, <<46>>, <<42>>, <<47>>, <<40>>, <<41>>,
         <<94>>, <<32, 112, 101, 114, 32>>, <<64>>, <<178>>, <<108, 103, 40, 114, 101, 32>> }
Many == Few \cup { <<46, 53>>, <<49, 101, 50>>, <<183>>, <<45>>, <<43>>, <<42, 42>>, <<8315>>, <<32, 115, 105, 110, 99, 101, 32>>,
         <<50, 48, 48, 48>>, <<58>>, <<84>>, <<90>>, <<33>>, <<37>>, <<176>>, <<69>>, <<108, 110, 32, 40, 82, 69, 58>> }
Pieces == IF Wide THEN Many ELSE Few

Init == text = <<>> /\ steps = 0
Next == /\ steps < Depth
        /\ steps' = steps + 1
        /\ \E p \in Pieces : text' = text \o p
Spec == Init /\ [][Next]_vars

RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts).x \o Joined(Tail(ts))
Bracketed(t) == <<40>> \o Strip(t) \o <<41>>
Same(n, o) == o # Error /\ Canon(o) = Canon(n)

RECURSIVE HasOp(_, _)
HasOp(n, ops) ==
  \/ n.op \in ops
  \/ CASE n.op \in {"mul", "div"} -> HasOp(n.l, ops) \/ HasOp(n.r, ops)
       [] n.op \in {"pow", "log", "shift", "date"} -> HasOp(n.l, ops)
       [] OTHER -> FALSE

(* Nothing of the text gets lost: the tokens are the text.                    *)
Tokens == Joined(Lex(text)) = text
Reading == LET n == TLCEval(Parse(text))
  IN n # Error /\ n.op # "empty" =>
     \* what is printed is read as the same, and printed as the same
     LET shown == TLCEval(Show(n))
         back == TLCEval(Parse(shown))
     IN /\ Same(n, back)
        /\ Show(back) = shown
        \* brackets and blanks around it make no difference
        /\ Same(n, Parse(Bracketed(text)))
        /\ Same(n, Parse(<<32>> \o text \o <<32>>))
        \* an operation with another factor has it on its left
        /\ LET m == Parse(Bracketed(text) \o <<47, 107>>)
           IN m.op = "div" /\ Canon(m.l) = Canon(n)
        \* operators are read from the left
        /\ LET m == Parse(<<107, 47>> \o Bracketed(text) \o <<46, 107>>)
           IN m.op = "mul" /\ m.l.op = "div" /\ Canon(m.l.r) = Canon(n)
        /\ ~HasOp(n, {"shift", "date"}) =>
             \* an offset applies to the whole product on its left
             LET m == Parse(Strip(text) \o <<64, 32, 53>>)
             IN m.op = "shift" /\ Canon(m.l) = Canon(n)

(* What is accepted is accepted as a part as well.                            *)
Enclosed == LET n == Parse(text)
  IN n # Error /\ n.op # "empty" =>
       /\ Parse(<<108, 103, 40, 114, 101, 32>> \o Strip(text) \o <<41>>).op = "log"
       /\ Parse(Bracketed(text) \o <<94, 50>>).op = "pow"
=============================================================================
