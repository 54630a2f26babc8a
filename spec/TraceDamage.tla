----------------------------- MODULE TraceDamage -----------------------------
(* Recorded extractions of damaged archives: an archive and runs, each with the damage
   and what extraction reported. *)
EXTENDS Damage, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
Init == /\ sc \in 1..Len(T) /\ i = 1
        /\ Begin(T[sc].ar, T[sc].runs[1].cut) /\ dmg = T[sc].runs[1].dmg
Ended == phase # "run" \/ dmg.kind = "any"
(* success is only possible if the archive could be read to its trailer *)
Agrees == Ended /\ T[sc].runs[i].res \in (IF phase = "err" THEN {"err"} ELSE {"ok", "err"})
NextRun ==
  /\ Agrees /\ i < Len(T[sc].runs)
  /\ i' = i + 1 /\ UNCHANGED <<sc, ar, st>>
  /\ cut' = T[sc].runs[i'].cut /\ dmg' = T[sc].runs[i'].dmg
  /\ k' = 0 /\ pos' = Zero /\ next' = Zero /\ off' = Zero /\ phase' = "run"
Done == Agrees /\ i = Len(T[sc].runs) /\ UNCHANGED <<dvars, sc, i>>
Next == (~Ended /\ XStep /\ UNCHANGED <<sc, i>>) \/ NextRun \/ Done
=============================================================================
