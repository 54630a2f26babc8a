------------------------------ MODULE MCHeader -------------------------------
(* Small headers: every entry over small data areas; every small shape. *)
EXTENDS Header
CONSTANTS MaxLen, Vals, MaxN, MaxL
VARIABLES data, ent
Datas == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Ents == [tag : {1000}, type : (-1..10), off : (-1..MaxLen + 1), cnt : (-1..MaxLen + 1) \cup {65537, 1073741825}]
EInit == data \in Datas /\ ent \in Ents /\ shape = 0 /\ pos = 0 /\ stage = 0
ENext == FALSE /\ UNCHANGED <<data, ent, hvars>>
zs == Zeros(data)
ok == InArea(data, zs, ent)
(* decoding an entry that lies in the area is defined and yields nothing but its bytes *)
Within ==
  ok => /\ (IsStr(ent.type) =>
              LET s == Strings(data, zs, ent) IN
              /\ Len(s) = ent.cnt
              /\ \A x \in 1..Len(s) : \A y \in 1..Len(s[x]) : s[x][y] # 0
              /\ \E p \in 0..Len(data) : p <= Len(data) - ent.off)
        /\ (IsInt(ent.type) => Len(Ints(data, ent)) = ent.cnt /\ \A x \in 1..ent.cnt : Len(Ints(data, ent)[x]) <= Size(ent.type))
        /\ (ent.type = 7 => Len(Bytes(data, ent)) = ent.cnt)
(* strings and their terminators fill the entry's bytes exactly *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o <<0>> \o Flat(Tail(s))
Filled == ok /\ IsStr(ent.type) =>
            LET f == Flat(Strings(data, zs, ent)) IN SubSeq(data, ent.off + 1, ent.off + Len(f)) = f
(* an entry that lies in the area has its bytes there: not so if the area ended one byte earlier
   than they do *)
Needed == ok /\ ent.cnt > 0 /\ Size(ent.type) # 0 =>
            LET l == IF Size(ent.type) > 0 THEN ent.off + ent.cnt * Size(ent.type) ELSE ent.off + Len(Flat(Strings(data, zs, ent)))
                d == SubSeq(data, 1, l - 1)
            IN l <= Len(data) /\ (Known(ent.type) => ~InArea(d, Zeros(d), ent))
(* the three integer accessors agree where they do not refuse, and never change a value *)
Results == {[res |-> "err", v |-> <<>>], [res |-> "ok", v |-> IF ok /\ IsInt(ent.type) THEN Ints(data, ent) ELSE <<>>],
            [res |-> "ok", v |-> <<<<1, 1>>>>]}
Agree == ok /\ IsInt(ent.type) => \A a, b \in Results : \A o, p \in {"u64s", "u32s", "ints"} :
            a.res = "ok" /\ b.res = "ok" /\ MayReturn(o, data, zs, ent, a) /\ MayReturn(p, data, zs, ent, b) => a.v = b.v

RInit == \E sn, gn \in 0..MaxN, sl, gl \in 0..MaxL : \E c \in {0, 95, 96, 111, 112} \cup
            {GenEnd([sn |-> sn, sl |-> sl, gn |-> gn, gl |-> gl]) + x : x \in -20..3} :
           ReadBegin([sn |-> sn, sl |-> sl, gn |-> gn, gl |-> gl, len |-> c]) /\ data = <<>> /\ ent = 0
RNext == (ReadPart \/ ReadFail) /\ UNCHANGED <<data, ent>>
AtPayload == stage = 8 => pos = GenEnd(shape) /\ (SigEnd(shape)) % 8 = 0
Verdict == /\ (stage = 8 => shape.len >= GenEnd(shape))
           /\ (stage = 9 => shape.len < GenEnd(shape))
           /\ pos <= shape.len
=============================================================================
