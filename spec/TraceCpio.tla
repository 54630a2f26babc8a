------------------------------ MODULE TraceCpio -----------------------------
(* Recorded use of the archive readers.  A scenario is
     [ar |-> archive (entries with the header `hdr` that Next must return),
      runs |-> << [cut, chunk, ev |-> << events >>], ... >>]. *)
EXTENDS Cpio, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, r, i
tvars == <<cvars, sc, r, i>>

Init == /\ sc \in 1..Len(T)
        /\ r = 1 /\ i = 1
        /\ Begin(T[sc].ar, T[sc].runs[1].cut)
Run == T[sc].runs[r]
Ev == Run.ev[i]

(* the byte that the archives have at offset o of the contents of entry n *)
ByteAt(n, o) == (n * 37 + o * 11 + 7) % 256
DataOK(m) ==
  IF "data" \in DOMAIN Ev
  THEN /\ m[1] = 0 /\ Len(Ev.data) = m[2]
       /\ \A x \in 1..Len(Ev.data) : Ev.data[x] = ByteAt(k, off[2] + x - 1)
  ELSE Ev.ok

(* A "soft" run reads a compressed payload that is damaged so that the end of the
   archive is lost; where exactly the decompressed data stops is not known. *)
AnyErr(m) == IF Run.soft THEN phase = "run" /\ BLeq(BAdd(off, m), ar[k].size) /\ Fail
             ELSE ReadErr(m)
ENext ==
  /\ Ev.op = "next"
  /\ \/ Ev.res = "ok" /\ NextOK /\ Ev.hdr = ar[k + 1].hdr
     \/ Ev.res = "eof" /\ ~Run.soft /\ NextEnd
     \/ Ev.res = "err" /\ (IF Run.soft THEN phase = "run" /\ Fail ELSE NextErr)
(* reading without a current file yields nothing *)
NoFile == phase = "end" \/ k = 0
ERead ==
  /\ Ev.op = "read"
  /\ BLeq(Ev.m, Ev.want)
  /\ IF NoFile THEN Ev.m = Zero /\ Ev.err \in {"nil", "eof", "err"} /\ UNCHANGED cvars
     ELSE /\ DataOK(Ev.m)
          /\ \/ Ev.err = "nil" /\ ReadSome(Ev.m, FALSE)
                /\ (Ev.m = Zero => Ev.want = Zero \/ Run.chunk = "zero")
             \/ Ev.err = "eof" /\ (IF Ev.m = Zero THEN ReadEnd ELSE ReadSome(Ev.m, TRUE))
             \/ Ev.err = "err" /\ AnyErr(Ev.m)
EAll ==
  /\ Ev.op = "all"
  /\ IF NoFile THEN Ev.m = Zero /\ UNCHANGED cvars
     ELSE /\ DataOK(Ev.m)
          /\ \/ Ev.err = "nil" /\ BAdd(off, Ev.m) = ar[k].size /\ ReadSome(Ev.m, TRUE)
             \/ Ev.err = "err" /\ AnyErr(Ev.m)
Event ==
  /\ i <= Len(Run.ev)
  /\ ENext \/ ERead \/ EAll
  /\ i' = i + 1 /\ UNCHANGED <<sc, r>>
(* the run must have got to an end or an error: nothing stops halfway *)
NextRun ==
  /\ i > Len(Run.ev) /\ r < Len(T[sc].runs)
  /\ phase # "run"
  /\ r' = r + 1 /\ i' = 1 /\ UNCHANGED sc
  /\ ar' = ar /\ st' = st /\ cut' = T[sc].runs[r + 1].cut
  /\ k' = 0 /\ pos' = Zero /\ next' = Zero /\ off' = Zero /\ phase' = "run"
Done == i > Len(Run.ev) /\ r = Len(T[sc].runs) /\ phase # "run" /\ UNCHANGED tvars
Next == Event \/ NextRun \/ Done
=============================================================================
