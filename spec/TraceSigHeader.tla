--------------------------- MODULE TraceSigHeader ---------------------------
(* Recorded writing, signing and re-reading of signature headers.
   A scenario is [sig |-> [ents, data], size, lead, rest |-> identities of the bytes, ev]. Events:
     dump    the returned header written out: same, lead, ents, data, total
     signed  a header with two new signatures was returned: pgp, rsa
     produce a package was produced from the returned header: lead, rest |-> identities of the bytes
             before and after its signature header, ents, data, total, id of its signature header,
             min, max |-> ids of the header written out both ways
     reread  the bytes last written are read again: acc |-> what the accessor returns for every tag *)
EXTENDS SigHeader, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, outs, last
tvars == <<hvars, wvars, sc, i, outs, last>>
None == [total |-> 0]
NoOuts == [s \in BOOLEAN |-> None]
Init == sc \in 1..Len(T) /\ i = 0 /\ tags = {} /\ avail = 0 /\ outs = NoOuts /\ last = None /\ shape = 0 /\ pos = 0 /\ stage = 0
S == T[sc]
E == S.ev[i]
Load == i = 0 /\ i' = 1 /\ Opened(TagsOf(S.sig, Zeros(S.sig.data)), S.size) /\ UNCHANGED <<hvars, sc, outs, last>>
Ev(op) == i \in 1..Len(S.ev) /\ E.op = op /\ E.res = "ok" /\ i' = i + 1 /\ UNCHANGED <<hvars, sc>>
Out(e) == [ents |-> e.ents, data |-> e.data, total |-> e.total]
Dump == /\ Ev("dump") /\ E.lead = S.lead
        /\ (GoodWrite(Out(E), Zeros(E.data), E.same) /\ (outs[E.same] = None \/ outs[E.same] = Out(E))) = TRUE
        /\ outs' = [outs EXCEPT ![E.same] = Out(E)] /\ last' = Out(E) /\ UNCHANGED wvars
Sign == Ev("signed") /\ Signed(E.pgp, E.rsa) /\ outs' = NoOuts /\ UNCHANGED last
Produce == /\ Ev("produce") /\ E.lead = S.lead /\ E.rest = S.rest
           /\ (WellFormed(Out(E), Zeros(E.data)) /\ Kept(TagsOf(Out(E), Zeros(E.data))) = tags) = TRUE
           /\ E.id \in {E.min, E.max}
           /\ last' = Out(E) /\ UNCHANGED <<wvars, outs>>
SeenOK(r, zs) ==
  LET x == CHOOSE x \in 1..Len(last.ents) : last.ents[x].tag = Raw(r.tag) IN
  MayReturn("get", last.data, zs, last.ents[x], r)
Reread == /\ Ev("reread")
          /\ ({Raw(E.acc[x].tag) : x \in 1..Len(E.acc)} = {last.ents[x].tag : x \in 1..Len(last.ents)}) = TRUE
          /\ LET zs == Zeros(last.data) IN
             /\ (\A x \in 1..Len(E.acc) : SeenOK(E.acc[x], zs)) = TRUE
             /\ Opened(TagsOf(last, zs), last.total)
          /\ outs' = NoOuts /\ UNCHANGED last
Done == i = Len(S.ev) + 1 /\ UNCHANGED tvars
Next == Load \/ Dump \/ Sign \/ Produce \/ Reread \/ Done
=============================================================================
