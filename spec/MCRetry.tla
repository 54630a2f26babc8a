------------------------------- MODULE MCRetry -------------------------------
(* How the implementation does it: it knows how many bytes of the stream it has taken (pos), where
   the next entry starts (next), and where the current file starts and how far it was read
   (start, curr). Every piece that it reads may stop short because the stream fails, after any
   number of its bytes. A header is H bytes, of which the last one is padding; contents are padded
   to a multiple of P. What it takes for a header is one only if it starts where an entry does.
   Checked: it keeps the contract of Retry, for every archive and every way the stream can fail. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxEntries, MaxSize, H, P,
          Guard     \* whether going backwards is refused and reading elsewhere noticed; FALSE to see that it matters
VARIABLES ar, k, off, phase, fired,  pos, next, start, curr, wrong
mvars == <<ar, k, off, phase, fired, pos, next, start, curr, wrong>>
C == INSTANCE Retry

Entry == [size : -1..MaxSize, trailer : {FALSE}]
Archives == UNION {[1..n -> Entry] : n \in 0..MaxEntries}
WithTrailer(a) == Append(a, [size |-> 0, trailer |-> TRUE])
PadP(x) == ((x + P - 1) \div P) * P
RECURSIVE Start(_, _)
(* where entry n starts; unknown sizes take no room *)
Start(a, n) == IF n = 1 THEN 0 ELSE PadP(Start(a, n - 1) + H + (IF a[n - 1].size < 0 THEN 0 ELSE a[n - 1].size))
Total(a) == Start(a, Len(a)) + H

Init == /\ \E a \in Archives : C!RBegin(WithTrailer(a))
        /\ pos = 0 /\ next = 0 /\ start = 0 /\ curr = 0 /\ wrong = FALSE

(* Next: skip to the next entry, which may fail on the way; read the header, which may fail *)
Skip == next - pos
Failing(p) == fired' = TRUE /\ pos' = p /\ UNCHANGED <<ar, k, off, phase, next, start, curr, wrong>>
NextFails == /\ phase = "run"
             /\ \/ pos > next /\ Guard /\ UNCHANGED mvars
                \/ Skip >= 0 /\ \E j \in 0..(Skip + H - 1) : pos + j < Total(ar) /\ Failing(pos + j)
                \/ Skip < 0 /\ ~Guard /\ \E j \in 0..(H - 1) : pos + j < Total(ar) /\ Failing(pos + j)
At == IF Skip >= 0 THEN next ELSE pos    \* where a header is read
NextReads == /\ phase = "run" /\ (Skip >= 0 \/ ~Guard) /\ k < Len(ar) /\ At + H <= Total(ar)
             /\ IF At # Start(ar, k + 1) THEN wrong' = TRUE /\ UNCHANGED <<ar, k, off, phase, fired, pos, next, start, curr>>
                ELSE IF ar[k + 1].trailer THEN phase' = "end" /\ pos' = At + H /\ UNCHANGED <<ar, k, off, fired, next, start, curr, wrong>>
                ELSE IF ar[k + 1].size < 0 THEN pos' = At + H /\ UNCHANGED <<ar, k, off, phase, fired, next, start, curr, wrong>>
                ELSE /\ k' = k + 1 /\ off' = 0 /\ pos' = At + H /\ start' = At + H /\ curr' = 0
                     /\ next' = PadP(At + H + ar[k + 1].size)
                     /\ UNCHANGED <<ar, phase, fired, wrong>>
(* the padding of the trailer may be missing: the end is reported then, too *)
TrailerShort == /\ phase = "run" /\ Skip >= 0 /\ k < Len(ar) /\ ar[k + 1].trailer /\ At = Start(ar, k + 1)
                /\ phase' = "end" /\ pos' = At + H - 1 /\ UNCHANGED <<ar, k, off, fired, next, start, curr, wrong>>
(* Read *)
Left == ar[k].size - curr
ReadFile == /\ phase = "run" /\ k > 0 /\ Left > 0
            /\ IF Guard /\ pos # start + curr THEN UNCHANGED mvars       \* refused
               ELSE \E m \in 1..Left :
                      /\ pos + m <= Total(ar)
                      /\ pos' = pos + m /\ curr' = curr + m /\ off' = off + m
                      /\ wrong' = (wrong \/ pos # start + curr)
                      /\ fired' \in {fired, TRUE}                          \* an error may come with them
                      /\ UNCHANGED <<ar, k, phase, next, start>>
ReadFails == phase = "run" /\ k > 0 /\ Left > 0 /\ Failing(pos)
Next == NextFails \/ NextReads \/ TrailerShort \/ ReadFile \/ ReadFails
MSpec == Init /\ [][Next]_mvars

(* nothing is taken for something else *)
NeverWrong == ~wrong
Exact == k > 0 => off = curr /\ curr <= ar[k].size /\ start = Start(ar, k) + H
(* what is delivered is really there, and the end is only seen at the trailer *)
EndIsEnd == phase = "end" => ar[k + 1].trailer
(* without a failure nothing is refused that could be read *)
NotLost == ~fired /\ phase = "run" /\ k < Len(ar) /\ (k = 0 \/ ar[k + 1].size >= 0) => pos <= next \/ ar[k + 1].size < 0
(* each step is one of the contract's, or two of them: the failure and what it makes of the call *)
Contract == [][ \/ C!NextOK \/ C!NextEnd \/ C!ReadEnd \/ C!Fire \/ UNCHANGED C!rvars
                \/ \E m \in 0..MaxSize : C!ReadSome(m)
                \/ \E m \in 0..MaxSize : /\ off' = off + m /\ k' = k /\ ar' = ar /\ phase' = phase /\ fired' ]_mvars
=============================================================================
