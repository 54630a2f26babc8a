----------------------------- MODULE TraceOffsets ----------------------------
(* Recorded positions: shape is what was written (len bytes in all), runs tell how far each
   way of reading went and what it reported. *)
EXTENDS Header, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
tvars == <<hvars, sc, i>>
Init == sc \in 1..Len(T) /\ i = 1 /\ ReadBegin(T[sc].shape)
R == T[sc].runs
(* read to the payload, or as far as the stream goes; then compare what is reported *)
Ran == stage \in {8, 9}
Ev == R[i]
Accept ==
  IF stage = 9 THEN Ev.res = "err"
  ELSE /\ Ev.res = "ok"
       /\ Ev.start = SigEnd(shape) /\ Ev.end = GenEnd(shape) /\ Ev.orig = SigEnd(shape)
       /\ (Ev.rest => Ev.consumed = pos /\ Ev.same)
Event == /\ Ran /\ i <= Len(R) /\ (Accept = TRUE) /\ i' = i + 1 /\ UNCHANGED <<hvars, sc>>
Done == Ran /\ i > Len(R) /\ UNCHANGED tvars
Read == (ReadPart \/ ReadFail) /\ UNCHANGED <<sc, i>>
Next == Read \/ Event \/ Done
=============================================================================
