-------------------------------- MODULE Trust --------------------------------
(* Who made a package, and is it whole: header digests, payload digests and signatures of a
   package, symbolically. A general header is [body, pd]: pd tells which payload the payload
   digest it records is of ("none", "unknown" for an algorithm that is not known, "bad" for a
   digest of nothing, or a payload). Digests in the signature header are [k |-> "none" | "bad" |
   "of", gen, pay]. A signature is [by, kind |-> "h" | "hp", gen, pay, state], made by key `by` over header
   gen, respectively gen and pay; state "ok" unless it was damaged. *)
EXTENDS Integers, Sequences, FiniteSets

HeaderTags == {"rsa", "dsa"}     \* signatures of the header
PayloadTags == {"pgp", "gpg"}    \* signatures of header and payload
SigNames == HeaderTags \cup PayloadTags
KindOf(t) == IF t \in HeaderTags THEN "h" ELSE "hp"

(* p is [gen, pay, sha256, sha1, md5, sigs], sigs[t] is <<>> or <<signature>> *)
Is(d, g) == d.k = "of" /\ d.gen = g
HeaderGood(p) ==
  IF p.sha256.k # "none" THEN Is(p.sha256, p.gen)
  ELSE p.sha1.k = "none" \/ Is(p.sha1, p.gen)
PayloadGood(p) ==
  IF p.gen.pd \notin {"none", "unknown"} THEN p.gen.pd = p.pay
  ELSE p.md5.k = "of" /\ p.md5.gen = p.gen /\ p.md5.pay = p.pay
Whole(p) == HeaderGood(p) /\ PayloadGood(p)

Covers(s, t, p) == s.kind = KindOf(t) /\ s.gen = p.gen /\ (s.kind = "hp" => s.pay = p.pay)
SigGood(s, t, p, keys) == s.state = "ok" /\ s.by \in keys /\ Covers(s, t, p)
SigsGood(p, keys) == \A t \in SigNames : \A n \in 1..Len(p.sigs[t]) : SigGood(p.sigs[t][n], t, p, keys)
(* all that is wrong is that keys are missing *)
KeyMissing(p, keys) == /\ SigsGood(p, keys \cup {p.sigs[t][1].by : t \in {t \in SigNames : p.sigs[t] # <<>>}})
                       /\ ~SigsGood(p, keys)
Accept(p, keys) == Whole(p) /\ SigsGood(p, keys)

VARIABLE pk
Present(p) == {t \in SigNames : p.sigs[t] # <<>>}
NoSigs == [t \in SigNames |-> <<>>]
Sig(by, kind, p) == [by |-> by, kind |-> kind, gen |-> p.gen, pay |-> p.pay, state |-> "ok"]
Resigned(p, by) == [p EXCEPT !.sigs = [t \in SigNames |-> CASE t = "rsa" -> <<Sig(by, "h", p)>>
                                                            [] t = "pgp" -> <<Sig(by, "hp", p)>>
                                                            [] OTHER -> <<>>]]
Sign(by) == Whole(pk) /\ pk' = Resigned(pk, by)
=============================================================================
