----------------------------- MODULE TraceRecords ----------------------------
(* Recorded file lists (Judge "files") and identities and sizes (Judge "identity"). *)
EXTENDS Records, TLC, Json, IOUtils
CONSTANT Judge
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, zsig, zgen
tvars == <<hvars, sc, i, zsig, zgen>>
Init == sc \in 1..Len(T) /\ i = 0 /\ zsig = <<>> /\ zgen = <<>> /\ shape = 0 /\ pos = 0 /\ stage = 0
S == T[sc]
Load == i = 0 /\ i' = 1 /\ zsig' = Zeros(S.sig.data) /\ zgen' = Zeros(S.gen.data) /\ UNCHANGED <<hvars, sc>>
FilesOK == \A x \in 1..Len(S.files) : GoodFiles(S.gen, zgen, S.files[x])
IdentityOK ==
  /\ GoodNEVRA(S.gen, zgen, S.nevra, S.nevra.epoch)
  /\ S.nevra.res \in {"ok", "err"}
  /\ GoodSize(S.gen, 1009, 5009, S.isize)
  /\ GoodSize(S.sig, 1007, 271, S.psize)
  /\ S.source = S.lead
Check == /\ i = 1 /\ S.res = "ok" /\ ((IF Judge = "files" THEN FilesOK ELSE IdentityOK) = TRUE)
         /\ i' = 2 /\ UNCHANGED <<hvars, sc, zsig, zgen>>
Done == i = 2 /\ UNCHANGED tvars
Next == Load \/ Check \/ Done
=============================================================================
