-------------------------------- MODULE Retry --------------------------------
(* Reading an archive from a stream whose reads may fail, by a consumer that may go on after an
   error. This is the contract: what each call may answer. An entry is
     [size |-> bytes of contents or -1 if not known, trailer |-> BOOLEAN, ...].
   `fired` tells that the stream has failed at least once. *)
EXTENDS Integers, Sequences

VARIABLES ar, k, off, phase, fired
rvars == <<ar, k, off, phase, fired>>

RBegin(a) == ar = a /\ k = 0 /\ off = 0 /\ phase = "run" /\ fired = FALSE
(* the stream fails; it may go on afterwards *)
Fire == fired' = TRUE /\ UNCHANGED <<ar, k, off, phase>>

(* Next delivers entry k + 1 and no other *)
NextOK == /\ phase = "run" /\ k < Len(ar) /\ ~ar[k + 1].trailer /\ ar[k + 1].size >= 0
          /\ k' = k + 1 /\ off' = 0 /\ UNCHANGED <<ar, phase, fired>>
(* the end is reported at the trailer only, whatever the stream said *)
NextEnd == /\ phase = "end" \/ (k < Len(ar) /\ ar[k + 1].trailer)
           /\ phase' = "end" /\ UNCHANGED <<ar, k, off, fired>>
(* errors are not invented *)
NextErr == /\ phase = "run" /\ k < Len(ar) /\ (fired \/ ar[k + 1].size < 0)
           /\ UNCHANGED rvars
(* Read delivers the next m bytes of entry k *)
ReadSome(m) == /\ k > 0 /\ phase = "run" /\ off + m <= ar[k].size
               /\ off' = off + m /\ UNCHANGED <<ar, k, phase, fired>>
ReadEnd == k > 0 /\ phase = "run" /\ off = ar[k].size /\ UNCHANGED rvars
(* with an error, after m bytes *)
ReadErr(m) == ReadSome(m) /\ (fired \/ (k < Len(ar) /\ ar[k + 1].size < 0))

RStep == \/ Fire \/ NextOK \/ NextEnd \/ NextErr \/ ReadEnd
         \/ \E m \in 0..(IF k > 0 THEN ar[k].size ELSE 0) : ReadSome(m) \/ ReadErr(m)
RSpec == (\E a \in {ar} : RBegin(a)) /\ [][RStep]_rvars
=============================================================================
