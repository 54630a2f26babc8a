----------------------------- MODULE TraceResign -----------------------------
(* Recorded signing, one to three times in a row: each step must be the action Sign of the
   specification, and the package it leaves must be what was really produced. *)
EXTENDS Trust, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
Tr == INSTANCE TraceTrust WITH Judge <- "sigs"
S == T[sc]
E == S.steps[i]
Init == sc \in 1..Len(T) /\ i = 0 /\ pk = <<>>
Load == i = 0 /\ i' = 1 /\ pk' = Tr!P(S.pk) /\ UNCHANGED sc
Step == i \in 1..Len(S.steps) /\ i' = i + 1 /\ UNCHANGED sc
(* the tag and the signature in it, as the specification has them *)
Seen(x) == LET s == x.sig IN
  /\ s.ok /\ s.by = E.by
  /\ s.hash = (IF E.hash = "" THEN "SHA-256" ELSE E.hash)
  /\ IF E.ctime = "" THEN s.at \in E.from..E.to ELSE s.ctime = E.ctime
VerifiesAs(p) == \A n \in 1..Len(E.verify) :
  LET v == E.verify[n] ks == {v.keys[x] : x \in 1..Len(v.keys)} IN
  /\ (v.res = "ok" <=> Accept(p, ks)) /\ (v.res = "ok" => v.n = Cardinality(Present(p)))
Signs == /\ Step /\ E.res = "ok" /\ Sign(E.by)
         /\ ({E.sigs[n].tag : n \in 1..Len(E.sigs)} = Present(pk') /\ Len(E.sigs) = Cardinality(Present(pk'))) = TRUE
         /\ (\A n \in 1..Len(E.sigs) : Seen(E.sigs[n])) = TRUE
         /\ E.others = S.others
         /\ VerifiesAs(pk') = TRUE
Refuses == Step /\ E.res = "err" /\ ~Whole(pk) /\ ~E.exists /\ UNCHANGED pk
Done == i = Len(S.steps) + 1 /\ UNCHANGED <<sc, i, pk>>
Next == Load \/ Signs \/ Refuses \/ Done
=============================================================================
