------------------------------- MODULE Header --------------------------------
(* The headers of a package: how a header area is laid out, what its index entries mean,
   what the accessors may return, and how far reading goes.

   An index entry is [tag, type, off, cnt] with 32-bit signed numbers; data is a sequence of
   bytes. Integer values are byte sequences, big end first, without leading zeros, so that
   64-bit values need no arithmetic. *)
EXTENDS Integers, Sequences, FiniteSets

Size(t) == CASE t = 0 -> 0 [] t \in {1, 2, 7} -> 1 [] t = 3 -> 2 [] t = 4 -> 4 [] t = 5 -> 8 [] OTHER -> -1
Align(t) == CASE t = 3 -> 2 [] t = 4 -> 4 [] t = 5 -> 8 [] OTHER -> 1
IsStr(t) == t \in {6, 8, 9}
IsInt(t) == t \in 1..5
Known(t) == t \in 0..9

(* positions of the zero bytes *)
Zeros(d) == SelectSeq([x \in 1..Len(d) |-> x], LAMBDA x : d[x] = 0)
(* number of zero bytes up to position p *)
ZerosTo(zs, p) == Cardinality({x \in 1..Len(zs) : zs[x] <= p})
InArea(d, zs, e) ==
  /\ e.off >= 0 /\ e.cnt >= 0 /\ e.off <= Len(d)
  /\ CASE Size(e.type) > 0 -> e.cnt <= (Len(d) - e.off) \div Size(e.type)
       [] Size(e.type) = 0 -> TRUE
       [] OTHER -> e.cnt <= Len(zs) - ZerosTo(zs, e.off)
(* the s bytes after position p without leading zeros *)
Val(d, p, s) == SubSeq(d, p + 1 + (CHOOSE n \in 0..s : (\A y \in 1..n : d[p + y] = 0) /\ (n = s \/ d[p + n + 1] # 0)), p + s)
Strings(d, zs, e) ==
  LET z == ZerosTo(zs, e.off) IN
  [x \in 1..e.cnt |-> SubSeq(d, IF x = 1 THEN e.off + 1 ELSE zs[z + x - 1] + 1, zs[z + x] - 1)]
Ints(d, e) == [x \in 1..e.cnt |-> Val(d, e.off + (x - 1) * Size(e.type), Size(e.type))]
Bytes(d, e) == SubSeq(d, e.off + 1, e.off + e.cnt)

Fits31(v) == Len(v) < 4 \/ (Len(v) = 4 /\ v[1] < 128)
Fits32(v) == Len(v) <= 4
Fits63(v) == Len(v) < 8 \/ (Len(v) = 8 /\ v[1] < 128)

(* Tags are drawn from two areas: 1000..16384 from the general header, all others from the
   signature header, whose tags from 1000 on are 16384 higher than they are stored *)
Base == 16384
Area(tag) == IF tag > Base \/ tag < 1000 THEN "sig" ELSE "gen"
Raw(tag) == IF tag > Base THEN tag - Base ELSE tag

(* What an accessor may return for entry e. r is [res |-> "ok" | "nosuch" | "err", v |-> values,
   b |-> bytes, kind]. *)
Refused(r) == r.res = "err"
One(r, ok) == r.res = "ok" /\ Len(r.v) = 1 /\ ok
MayReturn(op, d, zs, e, r) ==
  CASE op = "strings" -> IF IsStr(e.type) THEN r.res = "ok" /\ r.v = Strings(d, zs, e) ELSE Refused(r)
    [] op = "string" -> IF IsStr(e.type) /\ e.cnt = 1 THEN r.res = "ok" /\ r.v = Strings(d, zs, e) ELSE Refused(r)
    [] op = "u64s" -> IF IsInt(e.type) THEN r.res = "ok" /\ r.v = Ints(d, e) ELSE Refused(r)
    [] op = "u64" -> IF IsInt(e.type) /\ e.cnt = 1 THEN r.res = "ok" /\ r.v = Ints(d, e) ELSE Refused(r)
    [] op \in {"u32s", "u32"} ->
         IF ~IsInt(e.type) \/ (op = "u32" /\ e.cnt # 1) THEN Refused(r)
         ELSE IF e.type = 5 THEN Refused(r) \/ (r.res = "ok" /\ r.v = Ints(d, e) /\ \A x \in 1..e.cnt : Fits32(r.v[x]))
         ELSE r.res = "ok" /\ r.v = Ints(d, e)
    [] op \in {"ints", "int"} ->
         IF ~IsInt(e.type) \/ (op = "int" /\ e.cnt # 1) THEN Refused(r)
         ELSE IF e.type = 5 \/ (\E x \in 1..e.cnt : ~Fits31(Ints(d, e)[x]))
              THEN Refused(r) \/ (r.res = "ok" /\ r.v = Ints(d, e) /\ \A x \in 1..e.cnt : Fits63(r.v[x]))
         ELSE r.res = "ok" /\ r.v = Ints(d, e)
    [] op = "bytes" -> IF e.type = 7 THEN r.res = "ok" /\ r.b = Bytes(d, e)
                       ELSE Refused(r) \/ (e.type \in {1, 2} /\ r.res = "ok" /\ r.b = Bytes(d, e))
    [] op = "get" ->
         CASE IsStr(e.type) -> r.res = "ok" /\ r.kind = "strings" /\ r.v = Strings(d, zs, e)
           [] e.type \in {1, 2, 7} -> r.res = "ok" /\ r.kind = "bytes" /\ r.b = Bytes(d, e)
           [] e.type = 3 -> r.res = "ok" /\ r.kind = "u16" /\ r.v = Ints(d, e)
           [] e.type = 4 -> r.res = "ok" /\ r.kind = "u32" /\ r.v = Ints(d, e)
           [] e.type = 5 -> r.res = "ok" /\ r.kind = "u64" /\ r.v = Ints(d, e)
           [] OTHER -> Refused(r)

(* Reading: the lead, then two headers of n entries and l bytes of data each, the first one
   padded to a multiple of eight. *)
VARIABLES shape, pos, stage
hvars == <<shape, pos, stage>>
Pad8(x) == ((x + 7) \div 8) * 8
Steps == <<"lead", "sigintro", "sigtable", "sigdata", "genintro", "gentable", "gendata", "payload">>
Take(s, sh) == CASE s = "lead" -> 96 [] s \in {"sigintro", "genintro"} -> 16
                 [] s = "sigtable" -> 16 * sh.sn [] s = "sigdata" -> Pad8(sh.sl)
                 [] s = "gentable" -> 16 * sh.gn [] s = "gendata" -> sh.gl
ReadBegin(sh) == shape = sh /\ pos = 0 /\ stage = 1
(* the next part is there as a whole, or reading fails; reading never takes more than the part *)
ReadPart == /\ stage < 8 /\ pos + Take(Steps[stage], shape) <= shape.len
            /\ pos' = pos + Take(Steps[stage], shape) /\ stage' = stage + 1 /\ UNCHANGED shape
ReadFail == /\ stage < 8 /\ pos + Take(Steps[stage], shape) > shape.len
            /\ stage' = 9 /\ UNCHANGED <<shape, pos>>
SigEnd(sh) == 96 + 16 + 16 * sh.sn + Pad8(sh.sl)
GenEnd(sh) == SigEnd(sh) + 16 + 16 * sh.gn + sh.gl
=============================================================================
