------------------------------ MODULE Systems -------------------------------
(* The unit systems that recorded cases refer to (by number), from the file   *)
(* named by SYSTEMS: one sequence of registrations, or one document, per line.*)
EXTENDS Names, Judging, Plans, Document

Registrations == ndJsonDeserialize(IOEnv.SYSTEMS)
RegsOf(x) == IF "doc" \in DOMAIN x THEN Regs(x.doc) ELSE x.r
Sys == [k \in 1..Len(Registrations) |-> TLCEval(Build(RegsOf(Registrations[k])))]
Tab == [k \in 1..Len(Registrations) |-> TLCEval(Table(Sys[k]))]
TheSystems == TLCEval(Sys)
TheTables == TLCEval(Tab)

IsProper == TLCEval([k \in 1..Len(Registrations) |-> Proper(TheSystems[k])])

Means(k, n) == Lookup(TheSystems[k], TheTables[k], n)

\* What looking up text that means d may do.
Outcomes(d) == IF d.k = "bad" THEN { Errors[w] : w \in d.why } ELSE {d.k}

\* Dimensions as recorded: a sequence of <<name of basis unit, exponent>>.
DimOf(k, f) == { <<RefName(TheSystems[k].units[b]), f[b]>> : b \in DOMAIN f }
=============================================================================
