------------------------------ MODULE TraceRetry -----------------------------
(* Recorded reading of archives from failing streams, by a consumer that goes on after errors.
   Each event tells whether the stream has failed by then. *)
EXTENDS Retry, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, r, i
tvars == <<rvars, sc, r, i>>
Init == sc \in 1..Len(T) /\ r = 1 /\ i = 1 /\ RBegin(T[sc].ar)
Run == T[sc].runs[r]
Ev == Run.ev[i]
Failed == i <= Len(Run.ev) /\ Ev.fired /\ ~fired /\ Fire /\ UNCHANGED <<sc, r, i>>
NoFile == phase = "end" \/ k = 0
ENext == Ev.op = "next" /\ \/ Ev.res = "ok" /\ NextOK /\ Ev.hdr = ar[k + 1].hdr
                           \/ Ev.res = "eof" /\ NextEnd
                           \/ Ev.res = "err" /\ NextErr
ERead == /\ Ev.op = "read"
         /\ IF NoFile THEN Ev.m = 0 /\ UNCHANGED rvars
            ELSE /\ Ev.ok /\ Ev.m <= Ev.want
                 /\ \/ Ev.err = "nil" /\ ReadSome(Ev.m) /\ (Ev.m = 0 => Ev.want = 0 \/ Run.soft)
                    \/ Ev.err = "eof" /\ ReadSome(Ev.m) /\ off' = ar[k].size
                    \/ Ev.err = "err" /\ ReadErr(Ev.m)
Event == /\ i <= Len(Run.ev) /\ Ev.fired = fired /\ (ENext \/ ERead)
         /\ i' = i + 1 /\ UNCHANGED <<sc, r>>
(* an archive is given up only after a failure, or at a size that is not known *)
Over == i > Len(Run.ev) /\ (Run.cut \/ phase = "end" \/ fired \/ (k < Len(ar) /\ ar[k + 1].size < 0))
NextRun == /\ Over /\ r < Len(T[sc].runs) /\ r' = r + 1 /\ i' = 1 /\ UNCHANGED sc
           /\ ar' = ar /\ k' = 0 /\ off' = 0 /\ phase' = "run" /\ fired' = FALSE
Done == Over /\ r = Len(T[sc].runs) /\ UNCHANGED tvars
Next == Failed \/ Event \/ NextRun \/ Done
=============================================================================
