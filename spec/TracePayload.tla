----------------------------- MODULE TracePayload ----------------------------
(* Recorded use of the extended payload reader. *)
EXTENDS Payload, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, r, i
tvars == <<pvars, sc, r, i>>
Init == sc \in 1..Len(T) /\ r = 1 /\ i = 1 /\ Begin(T[sc].files, T[sc].ents)
Run == T[sc].runs[r]
Ev == Run[i]
ENext ==
  /\ Ev.op = "next"
  /\ \/ Ev.res = "ok" /\ NextOK
        /\ LET n == RecordOf(files, ents[k + 1]) IN
             /\ Ev.rec = files[n].rec
             /\ Ev.link = IsLink(files, n)
             /\ WellFormed(files, ents[k + 1])
     \/ Ev.res = "err" /\ NextErr
     \/ Ev.res = "eof" /\ NextEnd
(* ok tells that the bytes are the next ones of the contents, all that there are no more *)
ERead ==
  /\ Ev.op = "read" /\ Ev.res = "ok" /\ Ev.ok
  /\ (Ev.all => Ev.len = ents[k].len)
  /\ ReadAll
Event == /\ i <= Len(Run) /\ (ENext \/ ERead)
         /\ i' = i + 1 /\ UNCHANGED <<sc, r>>
NextRun ==
  /\ i > Len(Run) /\ phase # "run" /\ r < Len(T[sc].runs)
  /\ r' = r + 1 /\ i' = 1 /\ k' = 0 /\ phase' = "run" /\ rest' = TRUE /\ UNCHANGED <<sc, files, ents>>
Done == i > Len(Run) /\ phase # "run" /\ r = Len(T[sc].runs) /\ UNCHANGED tvars
Next == Event \/ NextRun \/ Done
=============================================================================
