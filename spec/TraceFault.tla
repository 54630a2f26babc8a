------------------------------ MODULE TraceFault -----------------------------
(* Recorded operations on failing streams: [op, fail, res, exact]; exact tells that what a
   successful operation delivered or left behind is what is in the package. *)
EXTENDS Fault, Sequences, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
Init == sc \in 1..Len(T) /\ i = 1
E == T[sc].runs[i]
OK == E.res \in May(E.op, E.fail) /\ (E.res = "ok" => E.exact)
Event == i <= Len(T[sc].runs) /\ (OK = TRUE) /\ i' = i + 1 /\ UNCHANGED sc
Done == i > Len(T[sc].runs) /\ UNCHANGED <<sc, i>>
Next == Event \/ Done
=============================================================================
