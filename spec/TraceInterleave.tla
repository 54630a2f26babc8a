--------------------------- MODULE TraceInterleave ---------------------------
(* Recorded calls of several users, in the order of their answers. `alone` is what each of them was
   answered in a process of its own. *)
EXTENDS Interleave, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
Init == sc \in 1..Len(T) /\ i = 1 /\ IBegin(T[sc].alone)
E == T[sc].ev[i]
Event == i <= Len(T[sc].ev) /\ Answer(E.u, E.ans, E.still) /\ i' = i + 1 /\ UNCHANGED sc
Done == i > Len(T[sc].ev) /\ Finished(T[sc].over) /\ UNCHANGED <<left, sc, i>>
Next == Event \/ Done
=============================================================================
