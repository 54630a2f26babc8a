------------------------------ MODULE MCRecords ------------------------------
(* Packages of up to N files: laying the parallel tags out and taking them apart again
   gives the files; leaving a value out of one tag is refused. *)
EXTENDS Records, TLC
CONSTANTS N
VARIABLES fs, drop, old
File == [dir : 0..1, base : {<<97>>, <<98, 99>>}, mode : {1, 300}]
RInit == /\ \E n \in 0..N : fs \in [1..n -> File] 
         /\ drop \in {0, 1028, 1030, 1034, 1035, 1036, 1037, 1039, 1040, 1095, 1096, 1116, 1117, 1118}
         /\ old \in BOOLEAN /\ shape = 0 /\ pos = 0 /\ stage = 0
RNext == FALSE /\ UNCHANGED <<fs, drop, old, hvars>>
Dirs == <<<<47>>, <<47, 100, 47>>>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
(* dropping takes the last value *)
Cut(t, l) == IF t = drop /\ l # <<>> THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Strs(t, l) == [tag |-> t, type |-> 8, cnt |-> Len(Cut(t, l)), b |-> Cat([x \in 1..Len(Cut(t, l)) |-> Cut(t, l)[x] \o <<0>>])]
Hi(x) == x \div 256
Lo(x) == x - 256 * Hi(x)
I2(t, l) == [tag |-> t, type |-> 3, cnt |-> Len(Cut(t, l)), b |-> Cat([x \in 1..Len(Cut(t, l)) |-> <<Hi(Cut(t, l)[x]), Lo(Cut(t, l)[x])>>])]
I1(t, l) == [tag |-> t, type |-> 2, cnt |-> Len(Cut(t, l)), b |-> Cut(t, l)]
FMap(F(_)) == [x \in 1..Len(fs) |-> F(x)]
Tags ==
  <<I1(1028, FMap(LAMBDA x : x)), I2(1030, FMap(LAMBDA x : fs[x].mode)), I1(1034, FMap(LAMBDA x : 10 + x)), Strs(1035, FMap(LAMBDA x : <<100 + x>>)),
    Strs(1036, FMap(LAMBDA x : <<>>)), I1(1037, FMap(LAMBDA x : 20 + x)), Strs(1039, FMap(LAMBDA x : <<110 + x>>)), Strs(1040, FMap(LAMBDA x : <<120 + x>>)),
    I1(1095, FMap(LAMBDA x : 30 + x)), I1(1096, FMap(LAMBDA x : 40 + x))>> \o
  IF old THEN <<Strs(1027, FMap(LAMBDA x : Dirs[fs[x].dir + 1] \o fs[x].base))>>
  ELSE <<I1(1116, FMap(LAMBDA x : fs[x].dir)), Strs(1117, FMap(LAMBDA x : fs[x].base)), Strs(1118, Dirs)>>
RECURSIVE Lay(_, _, _)
Lay(ts, ents, data) ==
  IF ts = <<>> THEN [ents |-> ents, data |-> data]
  ELSE LET t == Head(ts) IN
       Lay(Tail(ts), Append(ents, [tag |-> t.tag, type |-> t.type, off |-> Len(data), cnt |-> t.cnt]), data \o t.b)
h == Lay(Tags, <<>>, <<>>)
zz == Zeros(h.data)
Dropped == fs # <<>> /\ drop # 0 /\ ~(old /\ drop \in {1116, 1117, 1118}) /\ ~(drop = 1118 /\ \A x \in 1..Len(fs) : fs[x].dir = 0)
AllInArea == \A x \in 1..Len(h.ents) : InArea(h.data, zz, h.ents[x])
Val1(x) == IF x = 0 THEN <<>> ELSE <<x>>
RoundTrip ==
  IF fs = <<>> THEN TRUE
  ELSE IF Dropped THEN FilesBad(h, zz)
  ELSE /\ ~FilesBad(h, zz) /\ Plain(h, zz)
       /\ Files(h, zz) = [x \in 1..Len(fs) |->
            [name |-> Dirs[fs[x].dir + 1] \o fs[x].base, size |-> <<x>>, user |-> <<110 + x>>, grp |-> <<120 + x>>, digest |-> <<100 + x>>,
             link |-> <<>>, flags |-> <<20 + x>>, mtime |-> <<10 + x>>, mode |-> (IF fs[x].mode = 1 THEN <<1>> ELSE <<1, 44>>),
             dev |-> <<30 + x>>, ino |-> <<40 + x>>]]
=============================================================================
