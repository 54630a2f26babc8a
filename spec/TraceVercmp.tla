---------------------------- MODULE TraceVercmp -----------------------------
(* Results of the implementation's comparison must be those of the machine.
   A scenario is [a |-> string, ev |-> << <<string, result>>, ... >>]. *)
EXTENDS Vercmp, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
tvars == <<vars, sc, i>>

Init == /\ sc \in 1..Len(T)
        /\ i = 1
        /\ Begin(T[sc].a, T[sc].ev[1][1])
(* the rounds of one comparison are composed: only its result is observable *)
Observe ==
  /\ i <= Len(T[sc].ev)
  /\ res = Running
  /\ CmpFrom(a, b, p, q) = T[sc].ev[i][2]
  /\ i' = i + 1
  /\ IF i < Len(T[sc].ev)
     THEN b' = T[sc].ev[i + 1][1] /\ UNCHANGED <<a, p, q, res>>
     ELSE UNCHANGED vars
  /\ UNCHANGED sc
Done == i > Len(T[sc].ev) /\ UNCHANGED tvars
Next == Observe \/ Done
=============================================================================
