----------------------------- MODULE TraceTrust ------------------------------
(* Recorded reading, verification and signing of packages.
   A scenario is [pk |-> the package, read, verify |-> one result per key list, sign]. *)
EXTENDS Trust, TLC, Json, IOUtils
CONSTANT Judge   \* "header", "payload", "sigs", "report"
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
S == T[sc]
P(s) ==
  LET dig(d) == [k |-> d.k, gen |-> [body |-> d.gen, pd |-> s.pd], pay |-> d.pay] IN
  [gen |-> [body |-> s.body, pd |-> s.pd], pay |-> s.pay, sha256 |-> dig(s.sha256), sha1 |-> dig(s.sha1), md5 |-> dig(s.md5),
   sigs |-> [t \in SigNames |-> LET m == SelectSeq(s.sigs, LAMBDA x : x.tag = t) IN
               [n \in 1..Len(m) |-> [by |-> m[n].by, kind |-> m[n].kind, gen |-> [body |-> m[n].body, pd |-> s.pd], pay |-> m[n].pay,
                                     state |-> m[n].state]]]]
Init == sc \in 1..Len(T) /\ i = 0 /\ pk = <<>>
Load == i = 0 /\ i' = 1 /\ pk' = P(S.pk) /\ UNCHANGED sc
OK(r) == r = "ok"
Res == {"ok", "err"}
Keys(v) == {v.keys[x] : x \in 1..Len(v.keys)}
Claims == \E t \in Present(pk) : pk.sigs[t][1].state = "claim"
V == {S.verify[x] : x \in 1..Len(S.verify)}
Clean == S.read \in Res /\ S.sign \in Res /\ \A v \in V : v.res \in Res

HeaderOK ==
  /\ OK(S.read) <=> HeaderGood(pk)
  /\ ~HeaderGood(pk) => ~OK(S.sign) /\ \A v \in V : ~OK(v.res)
  /\ HeaderGood(pk) /\ PayloadGood(pk) => OK(S.sign) /\ (Present(pk) = {} => \A v \in V : OK(v.res))
PayloadOK ==
  /\ ~PayloadGood(pk) => ~OK(S.sign) /\ \A v \in V : ~OK(v.res)
  /\ Whole(pk) => OK(S.sign) /\ (Present(pk) = {} => \A v \in V : OK(v.res))
SigsOK == \A v \in V :
  IF v.nil
  THEN (Whole(pk) /\ \A t \in Present(pk) : pk.sigs[t][1].state \in {"ok", "value", "claim"}) => OK(v.res)
  ELSE /\ Accept(pk, Keys(v)) => OK(v.res)
       /\ (OK(v.res) => Accept(pk, Keys(v))) \/ Claims
       /\ (Claims => (OK(v.res) => \A t \in Present(pk) : pk.sigs[t][1].by \in Keys(v)))
       /\ (Whole(pk) /\ ~Claims /\ KeyMissing(pk, Keys(v)) => v.missing)

HOnly(s) == s.tag \in HeaderTags
Said(s, nil) == IF nil THEN [keyid |-> s.stored, hash |-> s.hash, ctime |-> s.ctime, honly |-> HOnly(s), entity |-> "none"]
                ELSE [keyid |-> s.keyid, hash |-> s.hash, ctime |-> s.ctime, honly |-> HOnly(s), entity |-> s.entity, name |-> s.name, fpr |-> s.fpr]
Told(r, nil) == IF nil THEN [keyid |-> r.keyid, hash |-> r.hash, ctime |-> r.ctime, honly |-> r.honly, entity |-> r.entity] ELSE r
Count(s, x) == Cardinality({n \in 1..Len(s) : s[n] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : Count(a, a[n]) = Count(b, a[n])
Unaltered == \A t \in Present(pk) : pk.sigs[t][1].state = "ok"
ReportOK == \A v \in V :
  OK(v.res) /\ Unaltered =>
    SameBag([n \in 1..Len(S.pk.sigs) |-> Said(S.pk.sigs[n], v.nil)], [n \in 1..Len(v.rep) |-> Told(v.rep[n], v.nil)])
Good == CASE Judge = "header" -> HeaderOK [] Judge = "payload" -> PayloadOK [] Judge = "sigs" -> SigsOK [] Judge = "report" -> ReportOK
Check == i = 1 /\ ((Clean /\ Good) = TRUE) /\ i' = 2 /\ UNCHANGED <<sc, pk>>
Done == i = 2 /\ UNCHANGED <<sc, i, pk>>
Next == Load \/ Check \/ Done
=============================================================================
