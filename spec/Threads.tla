------------------------------ MODULE Threads -------------------------------
(* Several threads look up units of one system whose definitions are resolved *)
(* on first use. A universe has                                               *)
(*   refs: for every unit the units its definition refers to, in order        *)
(*         (0: something that does not exist; a basis unit refers to nothing) *)
(*   work: for every thread the units it looks up, one after the other        *)
(* A step is what a thread does between two of the points where a lookup      *)
(* begins ("in") and ends ("out"):                                            *)
(*   at "in" of u: if u is in the cache, its lookup ends; if this very thread *)
(*     is already resolving u, u refers to itself and the lookup fails; and   *)
(*     otherwise the thread starts to resolve u, and looks up its first       *)
(*     reference (or, if there is none, publishes u, and the lookup ends)     *)
(*   at "out" of u: the thread goes on with what it was looking up u for      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS PerThread,  \* whether a unit knows which threads are resolving it
          Switches    \* how often a thread may be interrupted (AtWill: at will)

Universes == TLCEval(ndJsonDeserialize(IOEnv.UNIVERSES))

AtWill == 99

VARIABLES g,      \* the universe
          cache,  \* unit -> what it was resolved to, or Nothing
          busy,   \* unit -> the threads which are resolving it
          stack,  \* thread -> frames [u, p: "in"|"out", v: value, got: values]
          todo,   \* thread -> units yet to be looked up
          out,    \* thread -> answers
          sched   \* [last: thread, left: switches, run: the threads of all steps]
vars == <<g, cache, busy, stack, todo, out, sched>>

Nothing == <<-1>>
Failed == <<-2>>
Refs == Universes[g].refs
Work == Universes[g].work
UnitsOf == 1..Len(Refs)
ThreadsOf == 1..Len(Work)

\* What a unit is resolved to, alone: the tree of its references.
RECURSIVE Alone(_, _)
Alone(u, path) ==
  IF u = 0 \/ u \in path THEN Failed
  ELSE LET v == [i \in 1..Len(Refs[u]) |-> Alone(Refs[u][i], path \cup {u})]
       IN IF \E i \in 1..Len(v) : v[i] = Failed THEN Failed ELSE <<u, v>>

Init ==
  /\ g \in 1..Len(Universes)
  /\ cache = [u \in UnitsOf |-> Nothing]
  /\ busy = [u \in UnitsOf |-> {}]
  /\ stack = [t \in ThreadsOf |-> <<>>]
  /\ todo = Work
  /\ out = [t \in ThreadsOf |-> <<>>]
  /\ sched = [last |-> 0, left |-> Switches, run |-> <<>>]

Enter(u) == [u |-> u, p |-> "in", v |-> Nothing, got |-> <<>>]
Leave(f, v) == [f EXCEPT !.p = "out", !.v = v]
Frames(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
Frame(t) == stack[t][Len(stack[t])]

\* All references of the frame's unit are there: publish it.
Publish(t, f, below) ==
  LET v == <<f.u, f.got>>
  IN /\ cache' = [cache EXCEPT ![f.u] = v]
     /\ busy' = [busy EXCEPT ![f.u] = @ \ {t}]
     /\ stack' = [stack EXCEPT ![t] = Append(below, Leave(f, v))]

Begin(t) ==
  /\ stack[t] = <<>> /\ todo[t] # <<>>
  /\ stack' = [stack EXCEPT ![t] = <<Enter(Head(todo[t]))>>]
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<cache, busy, out>>

In(t) ==
  /\ stack[t] # <<>> /\ Frame(t).p = "in"
  /\ LET f == Frame(t)
         u == f.u
     IN IF u = 0
          THEN /\ stack' = [stack EXCEPT ![t] = Append(Frames(t), Leave(f, Failed))]
               /\ UNCHANGED <<cache, busy>>
        ELSE IF cache[u] # Nothing
          THEN /\ stack' = [stack EXCEPT ![t] = Append(Frames(t), Leave(f, cache[u]))]
               /\ UNCHANGED <<cache, busy>>
        ELSE IF IF PerThread THEN t \in busy[u] ELSE busy[u] # {}
          THEN /\ stack' = [stack EXCEPT ![t] = Append(Frames(t), Leave(f, Failed))]
               /\ UNCHANGED <<cache, busy>>
        ELSE IF Refs[u] = <<>> THEN Publish(t, f, Frames(t))
        ELSE /\ busy' = [busy EXCEPT ![u] = @ \cup {t}]
             /\ stack' = [stack EXCEPT ![t] = Append(@, Enter(Refs[u][1]))]
             /\ UNCHANGED cache
  /\ UNCHANGED <<todo, out>>

Out(t) ==
  /\ stack[t] # <<>> /\ Frame(t).p = "out"
  /\ LET f == Frame(t)
         below == Frames(t)
     IN IF below = <<>>
          THEN /\ out' = [out EXCEPT ![t] = Append(@, <<f.u, f.v>>)]
               /\ stack' = [stack EXCEPT ![t] = <<>>]
               /\ UNCHANGED <<cache, busy>>
        ELSE LET up == below[Len(below)]
                 rest == SubSeq(below, 1, Len(below) - 1)
                 got == [up EXCEPT !.got = Append(@, f.v)]
             IN IF f.v = Failed
                  THEN /\ stack' = [stack EXCEPT ![t] = Append(rest, Leave(up, Failed))]
                       /\ busy' = [busy EXCEPT ![up.u] = @ \ {t}]
                       /\ UNCHANGED <<cache, out>>
                ELSE IF Len(got.got) = Len(Refs[up.u]) THEN Publish(t, got, rest) /\ UNCHANGED out
                ELSE /\ stack' = [stack EXCEPT ![t] = Append(Append(rest, got), Enter(Refs[up.u][Len(got.got) + 1]))]
                     /\ UNCHANGED <<cache, busy, out>>
  /\ UNCHANGED todo

Active(t) == stack[t] # <<>> \/ todo[t] # <<>>
\* With bounded switches, going on with another thread although the last one
\* could continue costs one, and the steps are remembered.
Free(t) == IF sched.last \in {0, t} THEN TRUE ELSE ~Active(sched.last)
Allowed(t) ==
  IF Switches = AtWill \/ Free(t) THEN TRUE ELSE sched.left > 0
Scheduled(t) ==
  sched' = IF Switches = AtWill THEN sched
           ELSE [last |-> t, run |-> Append(sched.run, t),
                 left |-> IF Free(t) THEN sched.left ELSE sched.left - 1]
Step(t) == Allowed(t) /\ (Begin(t) \/ In(t) \/ Out(t)) /\ Scheduled(t)
Next == \E t \in ThreadsOf : Step(t) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars /\ \A t \in 1..4 : WF_vars(IF t \in ThreadsOf THEN Step(t) /\ UNCHANGED g ELSE FALSE)

(* ---- what must hold ---- *)
\* Every answer is what the thread would have got alone.
Answers == \A t \in ThreadsOf : \A i \in 1..Len(out[t]) : out[t][i][2] = Alone(out[t][i][1], {})
\* Nothing wrong is ever published, so that later lookups get the same.
Published == \A u \in UnitsOf : cache[u] # Nothing => cache[u] = Alone(u, {})
\* What is being resolved is on the stack of the thread that does.
Marked == \A u \in UnitsOf : \A t \in busy[u] : \E i \in 1..Len(stack[t]) : stack[t][i].u = u /\ stack[t][i].p = "in"
\* Threads do not wait for each other, nor go around in circles.
Done == \A t \in ThreadsOf : ~Active(t)
Clean == Done => \A u \in UnitsOf : busy[u] = {}
Ends == <>Done

\* Print the schedules.
Schedules == (Done /\ Switches # AtWill) => PrintT("SCHED " \o ToString(g) \o " " \o ToJson(sched.run))
=============================================================================
