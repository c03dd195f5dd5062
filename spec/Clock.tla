------------------------------- MODULE Clock --------------------------------
(* Times and date-times as values. A time is [h, m, s, u] (hour, minute,      *)
(* second, microseconds); a zone is a time or a text; a date-time is          *)
(* [y, mo, d, t: time, z: zone]. What text it came from is no part of it.     *)
EXTENDS Text

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) < n THEN Pad(<<48>> \o s, n) ELSE s
Digits(k, n) == Pad(NatText(k), n)
Colon == <<58>>
Point == <<46>>

TimeText(t) ==
  Digits(t.h, 2) \o Colon \o Digits(t.m, 2)
  \o (IF t.s # 0 \/ t.u # 0 THEN Colon \o Digits(t.s, 2) ELSE <<>>)
  \o (IF t.u # 0 THEN Point \o Digits(t.u, 6) ELSE <<>>)

\* Reading the text of a time.
Two(s, i) == (s[i] - 48) * 10 + s[i + 1] - 48
TimeOfText(s) ==
  [h |-> Two(s, 1), m |-> Two(s, 4),
   s |-> IF Len(s) >= 8 THEN Two(s, 7) ELSE 0,
   u |-> IF Len(s) >= 15 THEN ShortValue(SubSeq(s, 10, 15)) ELSE 0]
=============================================================================
