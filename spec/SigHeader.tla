------------------------------ MODULE SigHeader ------------------------------
(* Writing the signature header: the header kept in memory is a set of tags with their
   stored bytes and the size of the header it was read from. Writing lays the tags out,
   with a region tag that covers all of them; to keep the size it fills up with a reserved
   space tag. Signing replaces the signature tags; reading a written header again starts
   over with its size.

   A tag is [tag, type, cnt, b]; a written header is [ents, data, total], total counting
   the padding after the data. *)
EXTENDS Header, SequencesExt, FiniteSetsExt

Region == 62
Reserved == 1008
SigTags == {267, 268, 1002, 1005}
IsRegion(t) == t < 64

PadTo(n, a) == ((n + a - 1) \div a) * a
ZeroB(n) == [x \in 1..n |-> 0]
Sorted(ts) == SetToSortSeq(ts, LAMBDA x, y : x.tag < y.tag)
(* big end first, for lengths below 2^24 *)
B32(n) == <<0, n \div 65536, (n \div 256) - 256 * (n \div 65536), n - 256 * (n \div 256)>>
Neg32(n) == LET m == 16777216 - n IN <<255, m \div 65536, (m \div 256) - 256 * (m \div 65536), m - 256 * (m \div 256)>>
Trailer(n) == B32(Region) \o B32(7) \o Neg32(16 * n) \o B32(16)

Place(w, t) ==
  LET at == PadTo(Len(w.data), Align(t.type)) IN
  [ents |-> Append(w.ents, [tag |-> t.tag, type |-> t.type, off |-> at, cnt |-> t.cnt]),
   data |-> w.data \o ZeroB(at - Len(w.data)) \o t.b]
Lay(ts) ==
  LET w == FoldLeft(Place, [ents |-> <<>>, data |-> <<>>], Sorted(ts))
      n == Len(w.ents) + 1 IN
  [ents |-> <<[tag |-> Region, type |-> 7, off |-> Len(w.data), cnt |-> 16]>> \o w.ents,
   data |-> w.data \o Trailer(n), total |-> 16 + 16 * n + Pad8(Len(w.data) + 16)]
(* sizes alone, without the bytes *)
Need(ts) == 16 + 16 * (Cardinality(ts) + 1) +
            Pad8(16 + FoldLeft(LAMBDA n, t : PadTo(n, Align(t.type)) + Len(t.b), 0, Sorted(ts)))
Fits(ts, avail) == Need(ts) + 16 <= avail \/ Need(ts) = avail
Kept(ts) == {t \in ts : ~IsRegion(t.tag) /\ t.tag # Reserved}
ResTag(n) == [tag |-> Reserved, type |-> 7, cnt |-> n, b |-> ZeroB(n)]
Written(ts, avail, same) ==
  IF same /\ Need(ts) + 16 <= avail THEN Lay(ts \cup {ResTag(avail - Need(ts) - 16)}) ELSE Lay(ts)

(* what a written header holds, read by its own index *)
EndOf(d, zs, e) == IF Size(e.type) >= 0 THEN e.off + Size(e.type) * e.cnt
                   ELSE IF e.cnt = 0 THEN e.off ELSE zs[ZerosTo(zs, e.off) + e.cnt]
RawOf(d, zs, e) == SubSeq(d, e.off + 1, EndOf(d, zs, e))
TagOf(d, zs, e) == [tag |-> e.tag, type |-> e.type, cnt |-> e.cnt, b |-> RawOf(d, zs, e)]
TagsOf(o, zs) == {TagOf(o.data, zs, o.ents[x]) : x \in 1..Len(o.ents)}

WellFormed(o, zs) ==
  LET n == Len(o.ents) r == o.ents[1] IN
  /\ n >= 1 /\ \A x \in 1..n : InArea(o.data, zs, o.ents[x])
  /\ r.tag = Region /\ r.type = 7 /\ r.cnt = 16 /\ RawOf(o.data, zs, r) = Trailer(n)
  /\ \A x \in 2..n : o.ents[x].tag > o.ents[x - 1].tag /\ ~IsRegion(o.ents[x].tag)
  /\ \A x \in 1..n : PadTo(o.ents[x].off, Align(o.ents[x].type)) = o.ents[x].off
  /\ \A x \in 3..n : o.ents[x].off >= EndOf(o.data, zs, o.ents[x - 1])   \* nothing is shared
  /\ n = 1 \/ r.off >= EndOf(o.data, zs, o.ents[n])
  /\ o.total = 16 + 16 * n + Pad8(Len(o.data)) /\ Pad8(o.total) = o.total

VARIABLES tags, avail
wvars == <<tags, avail>>
Opened(ts, size) == tags' = Kept(ts) /\ avail' = size
(* the signatures are replaced, everything else stays *)
Signed(pgp, rsa) ==
  /\ tags' = {t \in tags : t.tag \notin SigTags} \cup
             {[tag |-> 1002, type |-> 7, cnt |-> Len(pgp), b |-> pgp], [tag |-> 268, type |-> 7, cnt |-> Len(rsa), b |-> rsa]}
  /\ UNCHANGED avail
(* what is demanded of a result o of writing *)
GoodWrite(o, zs, same) ==
  /\ WellFormed(o, zs) /\ Kept(TagsOf(o, zs)) = tags
  /\ (~same => \A x \in 1..Len(o.ents) : o.ents[x].tag # Reserved)
  /\ (same /\ Fits(tags, avail) => o.total = avail)
=============================================================================
