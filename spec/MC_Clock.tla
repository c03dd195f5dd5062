------------------------------ MODULE MC_Clock ------------------------------
(* The text of a time can be read back, so that distinct times have distinct  *)
(* texts: a clock which runs through all minutes of a day, and from boundary  *)
(* to boundary within a minute.                                               *)
EXTENDS Clock

Seconds == {0, 1, 9, 10, 35, 59}
Micros == {0, 1, 9, 10, 99, 100, 1000, 99999, 100000, 123456, 500000, 999999}

VARIABLE t
Init == \E s \in Seconds, u \in Micros : t = [h |-> 0, m |-> 0, s |-> s, u |-> u]
Next == t' = IF t.m < 59 THEN [t EXCEPT !.m = @ + 1] ELSE [t EXCEPT !.m = 0, !.h = (@ + 1) % 24]
Spec == Init /\ [][Next]_t
Faithful == TimeOfText(TimeText(t)) = t
Form == Len(TimeText(t)) \in {5, 8, 15}
=============================================================================
