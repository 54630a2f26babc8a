---------------------------- MODULE TraceCompress ----------------------------
(* Recorded readings of one payload stored in different ways. A scenario has the entries of
   the payload (plain |-> name in the archive, rec |-> file record, data |-> contents)
   and runs, each with a configuration and what happened. *)
EXTENDS Compress, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, r, i
tvars == <<cvars, sc, r, i>>
Init == sc \in 1..Len(T) /\ r = 1 /\ i = 1 /\ Begin(T[sc].runs[1].cfg, T[sc].ents)
Run == T[sc].runs[r].ev
Ev == Run[i]
EOpen == Ev.op = "open" /\ IF Ev.res = "ok" THEN Open(0) ELSE OpenRefused \/ OpenFails
ENext ==
  /\ Ev.op = "next"
  /\ CASE Ev.res = "ok" -> NextEntry /\ Ev.name = (IF cfg.api = "ext" THEN ents[k + 1].rec ELSE ents[k + 1].plain)
       [] Ev.res = "eof" -> NextEnd
       [] OTHER -> NextFails
(* contents of the current entry, read to their end; cut ones are the subject of another property *)
ERead == /\ Ev.op = "read" /\ st = "open" /\ k > 0
         /\ IF cfg.end = "cut" THEN TRUE ELSE Ev.res = "ok" /\ Ev.name = ents[k].data
         /\ UNCHANGED cvars
EExtract ==
  /\ Ev.op = "extract"
  /\ IF Refused(cfg) THEN Ev.res = "err" /\ OpenRefused
     ELSE /\ st' = "over" /\ k' = k /\ workers' = 0 /\ UNCHANGED <<cfg, ents>>
          /\ CASE Whole(cfg) -> Ev.res = "ok"
               [] cfg.end = "cut" \/ (cfg.end = "baddest" /\ ents = <<>>) -> TRUE
               [] OTHER -> Ev.res = "err"
(* what extraction left: the contents of each entry, in order *)
ETree == /\ Ev.op = "tree" /\ cfg.api = "extract"
         /\ (Whole(cfg) /\ ~Refused(cfg) => Ev.tree = [x \in 1..Len(ents) |-> ents[x].data])
         /\ UNCHANGED cvars
ELeft == /\ Ev.op = "left"
         /\ (MustBeQuiet => Ev.n = 0)
         /\ ~Ev.closed
         /\ UNCHANGED cvars
Event == /\ i <= Len(Run) /\ (EOpen \/ ENext \/ ERead \/ EExtract \/ ETree \/ ELeft)
         /\ i' = i + 1 /\ UNCHANGED <<sc, r>>
NextRun ==
  /\ i > Len(Run) /\ st # "open" /\ r < Len(T[sc].runs)
  /\ r' = r + 1 /\ i' = 1 /\ k' = 0 /\ st' = "start" /\ workers' = 0 /\ cfg' = T[sc].runs[r + 1].cfg /\ UNCHANGED <<sc, ents>>
Done == i > Len(Run) /\ st # "open" /\ r = Len(T[sc].runs) /\ UNCHANGED tvars
Next == Event \/ NextRun \/ Done
=============================================================================
