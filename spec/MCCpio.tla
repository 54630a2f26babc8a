------------------------------- MODULE MCCpio -------------------------------
(* Every archive of up to MaxEntries entries from a small pool, every cut near a
   boundary of its layout, every consumer. *)
EXTENDS Cpio, TLC
CONSTANTS NLens, Sizes, StripSizes, MaxEntries

Newc == [k : {"newc"}, nlen : NLens, size : {Big(s) : s \in Sizes}, trailer : {FALSE}]
Strip == IF StripSizes = {} THEN {} ELSE
         [k : {"strip"}, nlen : {0}, size : {Big(s) : s \in StripSizes} \cup {<<>>}, trailer : {FALSE}]
Trailer == [k |-> "newc", nlen |-> 11, size |-> Zero, trailer |-> TRUE]
Pool == Newc \cup Strip
Archives == {Append(a, Trailer) : a \in UNION {[1..n -> Pool] : n \in 0..MaxEntries}}

Near(x) == {y \in {BAdd(x, <<0, 1>>), x} \cup (IF x = Zero THEN {} ELSE {BSub(x, <<0, 1>>)}) : TRUE}
Boundaries(a) ==
  LET s == Starts(a)
  IN UNION {{s[n], BAdd(s[n], <<0, 6>>), NameEnd(s[n], a[n]), DataStart(s[n], a[n])}
            \cup (IF Known(a[n]) THEN {DataEnd(s[n], a[n]), After(s[n], a[n])} ELSE {}) : n \in 1..Len(s)}
Cuts(a) == UNION {Near(x) : x \in Boundaries(a)}

Init == \E a \in Archives : \E c \in Cuts(a) \cup {<<>>} : Begin(a, c)
Next ==
  \/ NextOK \/ NextEnd \/ NextErr \/ ReadEnd
  \/ k > 0 /\ \E m \in 0..5 : ReadSome(Big(m), FALSE) \/ ReadSome(Big(m), TRUE) \/ ReadErr(Big(m))
(* no consumer is ever stuck: some result of Next is always defined *)
NextDefined == phase = "run" /\ k < Len(ar) =>
                 \/ ENABLED NextOK \/ ENABLED NextEnd \/ ENABLED NextErr
(* with a cut stream the end is not reachable before the trailer's name is there *)
CutNeverComplete == phase = "end" /\ ~Complete =>
                      ~BLess(cut, NameEnd(st[Len(st)], ar[Len(st)]))
(* an uncut archive whose sizes are known has no error *)
NoFalseError == Complete /\ (\A n \in 1..Len(ar) : Known(ar[n])) => phase # "err"
=============================================================================
