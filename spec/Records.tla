------------------------------- MODULE Records -------------------------------
(* What the tags of a package mean together: file records, identity, sizes.
   h is [ents, data], z the zero positions of its data; every tag is stored at most once. *)
EXTENDS Header

Has(h, t) == \E x \in 1..Len(h.ents) : h.ents[x].tag = t
Ent(h, t) == h.ents[CHOOSE x \in 1..Len(h.ents) : h.ents[x].tag = t]
(* lists of values; "bad" if the tag has no such values *)
Bad == <<<<-1>>>>
StrL(h, z, t) == IF Has(h, t) /\ IsStr(Ent(h, t).type) THEN Strings(h.data, z, Ent(h, t)) ELSE Bad
IntL(h, t) == IF Has(h, t) /\ IsInt(Ent(h, t).type) THEN Ints(h.data, Ent(h, t)) ELSE Bad
Wide(h, t) == Has(h, t) /\ Ent(h, t).type = 5   \* 64-bit where 32 bits are usual: may be refused

(* -- files --------------------------------------------------------------- *)
OldNames == 1027
DirIdx == 1116
BaseN == 1117
DirN == 1118
LongSizes == 5008
SizesTag(h) == IF Has(h, LongSizes) THEN LongSizes ELSE 1028
Num(v) == CASE Len(v) = 0 -> 0 [] Len(v) = 1 -> v[1] [] Len(v) = 2 -> v[1] * 256 + v[2] [] Len(v) = 3 -> v[1] * 65536 + v[2] * 256 + v[3]
            [] OTHER -> 100000000
NoNames(h) == ~Has(h, OldNames) /\ ~Has(h, BaseN)
PathsBad(h, z) ==
  IF Has(h, OldNames) THEN StrL(h, z, OldNames) = Bad
  ELSE LET b == StrL(h, z, BaseN) d == StrL(h, z, DirN) x == IntL(h, DirIdx) IN
       b = Bad \/ d = Bad \/ x = Bad \/ Len(x) # Len(b) \/ \E n \in 1..Len(x) : Num(x[n]) >= Len(d)
(* directories are stored with a slash at their end, but need not be *)
Slash == 47
Join(d, b) == IF d = <<>> \/ d[Len(d)] = Slash THEN d \o b ELSE d \o <<Slash>> \o b
Paths(h, z) ==
  IF Has(h, OldNames) THEN StrL(h, z, OldNames)
  ELSE LET b == StrL(h, z, BaseN) d == StrL(h, z, DirN) x == IntL(h, DirIdx) IN
       [n \in 1..Len(b) |-> Join(d[Num(x[n]) + 1], b[n])]
(* joining may clean up names that are not plain; those are not predicted *)
Plain(h, z) ==
  Has(h, OldNames) \/
  LET b == StrL(h, z, BaseN) d == StrL(h, z, DirN) IN
  /\ \A n \in 1..Len(b) : b[n] # <<>> /\ b[n] \notin {<<46>>, <<46, 46>>} /\ \A y \in 1..Len(b[n]) : b[n][y] # Slash
  /\ \A n \in 1..Len(d) : d[n] = <<>> \/ /\ d[n][1] = Slash
                                         /\ \A y \in 1..Len(d[n]) - 1 : ~(d[n][y] = Slash /\ d[n][y + 1] \in {Slash, 46})
StrTags == <<1039, 1040, 1035, 1036>>              \* owner, group, digest, link target
IntTags == <<1037, 1034, 1030, 1095, 1096>>        \* flags, modification time, mode, device, inode
Optional == {1095, 1096}
FilesBad(h, z) ==
  \/ PathsBad(h, z)
  \/ LET n == Len(Paths(h, z)) IN
     \/ LET l == IntL(h, SizesTag(h)) IN l = Bad \/ Len(l) # n \/ \E x \in 1..n : ~Fits63(l[x])
     \/ \E k \in 1..4 : LET l == StrL(h, z, StrTags[k]) IN l = Bad \/ Len(l) # n
     \/ \E k \in 1..5 : LET t == IntTags[k] IN
          IF ~Has(h, t) /\ t \in Optional THEN FALSE
          ELSE LET l == IntL(h, t) IN l = Bad \/ Len(l) # n \/ \E x \in 1..n : ~Fits32(l[x])
MayRefuse(h) == \E k \in 1..5 : Wide(h, IntTags[k])  \/ Wide(h, DirIdx)
IntOr0(h, t, n) == IF Has(h, t) THEN IntL(h, t) ELSE [x \in 1..n |-> <<>>]
Files(h, z) ==
  LET p == Paths(h, z) sz == IntL(h, SizesTag(h))
      us == StrL(h, z, 1039) gr == StrL(h, z, 1040) di == StrL(h, z, 1035) li == StrL(h, z, 1036)
      fl == IntL(h, 1037) mt == IntL(h, 1034) mo == IntL(h, 1030)
      de == IntOr0(h, 1095, Len(p)) io == IntOr0(h, 1096, Len(p)) IN
  [x \in 1..Len(p) |->
    [name |-> p[x], size |-> sz[x], user |-> us[x], grp |-> gr[x], digest |-> di[x],
     link |-> li[x], flags |-> fl[x], mtime |-> mt[x], mode |-> mo[x], dev |-> de[x], ino |-> io[x]]]
NameOf(f) == f.name
(* r is [res, files] *)
GoodFiles(h, z, r) ==
  IF NoNames(h)
  THEN \/ r.res = "ok" /\ r.files = <<>>
       \/ (Has(h, DirN) \/ Has(h, DirIdx)) /\ r.res # "ok"   \* directories of nothing
  ELSE IF PathsBad(h, z) THEN r.res # "ok"
  ELSE IF Paths(h, z) = <<>> THEN r.res # "ok" \/ r.files = <<>>
  ELSE IF FilesBad(h, z) THEN r.res # "ok"
  ELSE \/ MayRefuse(h) /\ r.res # "ok"
       \/ /\ r.res = "ok"
          /\ IF Plain(h, z) THEN r.files = Files(h, z)
             ELSE Len(r.files) = Len(Files(h, z)) /\
                  \A x \in 1..Len(r.files) : [r.files[x] EXCEPT !.name = <<>>] = [Files(h, z)[x] EXCEPT !.name = <<>>]

(* -- identity and sizes -------------------------------------------------- *)
Single(l) == l # Bad /\ Len(l) = 1
(* r is [res, name, version, release, arch, epoch (digits)] *)
NTags == <<1000, 1001, 1002, 1022>>
GoodNEVRA(h, z, r, epochval) ==
  LET l(k) == StrL(h, z, NTags[k])
      missing == \E k \in 1..4 : l(k) = Bad \/ l(k) = <<>>
      several == \E k \in 1..4 : l(k) # Bad /\ Len(l(k)) > 1
      e == IntL(h, 1003)
  IN
  IF missing \/ (Has(h, 1003) /\ e = Bad) THEN r.res # "ok"
  ELSE IF several \/ (Has(h, 1003) /\ Len(e) > 1) THEN r.res = "ok" => \A k \in 1..4 : \E y \in 1..Len(l(k)) : r.nvra[k] = l(k)[y]
  ELSE IF Has(h, 1003) /\ e = <<>> THEN r.res = "ok" => r.nvra = [k \in 1..4 |-> l(k)[1]] /\ epochval = <<>>
  ELSE r.res = "ok" /\ r.nvra = [k \in 1..4 |-> l(k)[1]] /\ epochval = (IF Has(h, 1003) THEN e[1] ELSE <<>>)
Usable(h, t) == Single(IntL(h, t))
(* r is [res, v] *)
GoodSize(h, short, long, r) ==
  LET from(t) == IF Usable(h, t) /\ Fits63(IntL(h, t)[1]) THEN r.res = "ok" /\ r.v = IntL(h, t)[1] ELSE r.res # "ok" IN
  IF Has(h, long) THEN IF Usable(h, long) THEN from(long) ELSE r.res # "ok" \/ from(short)
  ELSE from(short)
=============================================================================
