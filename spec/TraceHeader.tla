----------------------------- MODULE TraceHeader -----------------------------
(* Recorded reading of package headers. A scenario tells what the bytes are:
   whole |-> lead and both headers are there with the right magic numbers, and then
   sig, gen |-> [ents, data], sound |-> a well-formed package whose headers must be accepted,
   and what happened: api |-> results of reading in three ways, acc |-> results of accessors. *)
EXTENDS Header, TLC, Json, IOUtils
CONSTANT Judge  \* "safe": no panic, nothing from outside; "exact": the values
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, zsig, zgen
tvars == <<hvars, sc, i, zsig, zgen>>
Init == sc \in 1..Len(T) /\ i = 0 /\ zsig = <<>> /\ zgen = <<>> /\ shape = 0 /\ pos = 0 /\ stage = 0
S == T[sc]
H(a) == IF a = "sig" THEN S.sig ELSE S.gen
Z(a) == IF a = "sig" THEN zsig ELSE zgen
Load == i = 0 /\ i' = 1 /\ zsig' = Zeros(S.sig.data) /\ zgen' = Zeros(S.gen.data) /\ UNCHANGED <<hvars, sc>>
AllIn(a) == \A x \in 1..Len(H(a).ents) : InArea(H(a).data, Z(a), H(a).ents[x])
KnownTypes(a) == \A x \in 1..Len(H(a).ents) : Known(H(a).ents[x].type)
ReadOK(res) == \* of the three ways of reading only the first can also fail later, in the payload
  /\ res \in {"ok", "err"}
  /\ (res = "ok" => S.whole /\ AllIn("sig") /\ AllIn("gen"))
Reading == /\ \A x \in 1..Len(S.api) : ReadOK(S.api[x])
           /\ (Judge = "exact" /\ S.sound /\ AllIn("sig") /\ AllIn("gen") /\ KnownTypes("sig") /\ KnownTypes("gen") => S.api[1] = "ok")

Cands(tag) == {x \in 1..Len(H(Area(tag)).ents) : H(Area(tag)).ents[x].tag = Raw(tag)}
Contains(d, b) == Len(b) <= Len(d) /\ \E p \in 0..Len(d) - Len(b) : SubSeq(d, p + 1, p + Len(b)) = b
Exact(r) ==
  LET a == Area(r.tag) c == Cands(r.tag) IN
  CASE r.op = "has" -> r.res = (IF c = {} THEN "no" ELSE "yes")
    [] r.op = "u64f" ->
         LET c2 == Cands(r.tag2) a2 == Area(r.tag2)
             short == \/ (c = {} /\ r.res = "nosuch")
                      \/ \E x \in c : MayReturn("u64", H(a).data, Z(a), H(a).ents[x], r) IN
         IF c2 = {} THEN short
         ELSE \E x \in c2 : LET e == H(a2).ents[x] IN
                IF IsInt(e.type) /\ e.cnt = 1 THEN MayReturn("u64", H(a2).data, Z(a2), e, r) ELSE r.res # "ok" \/ short
    [] c = {} /\ Raw(r.tag) = 1027 /\ r.op \in {"get", "string", "strings"} -> TRUE
    [] c = {} -> r.res = "nosuch"
    [] OTHER -> \E x \in c : MayReturn(r.op, H(a).data, Z(a), H(a).ents[x], r)
Safe(r) ==
  /\ r.res \in {"ok", "err", "nosuch", "yes", "no"}
  /\ (r.res = "ok" /\ Raw(r.tag) # 1027 =>
       /\ (r.op \in {"strings", "string"} \/ (r.op = "get" /\ r.kind = "strings") =>
              \A x \in 1..Len(r.v) : Contains(H(Area(r.tag)).data, r.v[x]))
       /\ Contains(H(Area(r.tag)).data, r.b))
Access(r) == IF Judge = "exact" THEN Exact(r) ELSE Safe(r)
(* "= TRUE" makes TLC evaluate these as expressions and not as nondeterministic actions *)
Check == /\ i = 1 /\ (Reading = TRUE)
         /\ ((\A x \in 1..Len(S.acc) : Access(S.acc[x])) = TRUE)
         /\ i' = 2 /\ UNCHANGED <<hvars, sc, zsig, zgen>>
Done == i = 2 /\ UNCHANGED tvars
Next == Load \/ Check \/ Done
=============================================================================
