-------------------------------- MODULE Cpio --------------------------------
(* Reading a newc or rpm-stripped cpio archive.

   An archive is a sequence of entries
     [k |-> "newc" or "strip",  the kind of header
      nlen |-> length of the stored name with its NUL (newc),
      size |-> Big, number of bytes of contents; for "strip" it comes from the
               supplied sizes and is <<>> if none was supplied for the index,
      trailer |-> whether it is the entry that ends the archive, ...]
   laid out one after the other.  The consumer calls Next and Read in any order; the
   stream may end early, at byte `cut`.

   The state follows the implementation: how many bytes of the stream have been
   consumed, where the next entry starts, and the file being read. *)
EXTENDS Big, FiniteSets

VARIABLES
  ar,     \* the archive
  cut,    \* Big: bytes that the stream has, or <<>> if it is complete
  st,     \* start of the entries: st[n] is the offset of entry n (derived from ar)
  k,      \* entry that Next returned last, 0 before the first call
  pos,    \* bytes of the stream consumed so far
  next,   \* offset where the next entry starts
  off,    \* bytes of entry k delivered so far
  phase   \* "run"; "end" after the trailer; "err" after an error
cvars == <<ar, cut, st, k, pos, next, off, phase>>

NewcHeader == 110
StripHeader == 14

(* header and name, without padding *)
HeadLen(e) == IF e.k = "newc" THEN Big(NewcHeader + e.nlen) ELSE Big(StripHeader)
NameEnd(s, e) == BAdd(s, HeadLen(e))
(* The header and name of a newc entry are padded to 4 bytes, a stripped header is not *)
DataStart(s, e) == IF e.k = "newc" THEN BAdd(s, Pad4(HeadLen(e))) ELSE NameEnd(s, e)
Known(e) == e.size # <<>>
DataEnd(s, e) == BAdd(DataStart(s, e), e.size)
After(s, e) == Pad4(DataEnd(s, e))

RECURSIVE StartsFrom(_, _, _)
StartsFrom(a, n, s) ==
  IF n > Len(a) THEN <<>>
  ELSE <<s>> \o (IF Known(a[n]) THEN StartsFrom(a, n + 1, After(s, a[n])) ELSE <<>>)
Starts(a) == StartsFrom(a, 1, Zero)

Complete == cut = <<>>
Have(x) == IF Complete THEN TRUE ELSE BLeq(x, cut)     \* the stream has the bytes before offset x
Rem == BSub(ar[k].size, off)
(* how far the contents of entry k can be delivered *)
Avail == IF Have(DataEnd(st[k], ar[k])) THEN ar[k].size
         ELSE IF BLess(DataStart(st[k], ar[k]), cut) THEN BSub(cut, DataStart(st[k], ar[k]))
         ELSE Zero

Begin(a, c) ==
  /\ ar = a /\ cut = c /\ st = Starts(a)
  /\ k = 0 /\ pos = Zero /\ next = Zero /\ off = Zero /\ phase = "run"

Fail == phase' = "err" /\ UNCHANGED <<ar, cut, st, k, pos, next, off>>

(* Next delivers the header of entry k + 1 *)
NextOK ==
  /\ phase = "run" /\ k < Len(ar) /\ ~ar[k + 1].trailer
  /\ Known(ar[k + 1])
  /\ Have(NameEnd(st[k + 1], ar[k + 1]))
  /\ k' = k + 1
  /\ off' = Zero
  /\ pos' = DataStart(next, ar[k'])
  /\ next' = After(next, ar[k'])
  /\ UNCHANGED <<ar, cut, st, phase>>
(* Next reports the end of the archive, which it keeps doing *)
NextEnd ==
  /\ \/ phase = "run" /\ k < Len(ar) /\ ar[k + 1].trailer /\ Have(NameEnd(st[k + 1], ar[k + 1]))
     \/ phase = "end"
  /\ phase' = "end"
  /\ UNCHANGED <<ar, cut, st, k, pos, next, off>>
(* Next reports an error other than the end: the stream is cut before the contents
   of entry k + 1 start, or there is no size for a stripped entry *)
NextErr ==
  /\ phase = "run" /\ k < Len(ar)
  /\ \/ ~Known(ar[k + 1])
     \/ ~Have(DataStart(st[k + 1], ar[k + 1]))
  /\ Fail
(* Read delivers the next m bytes of entry k; eof tells that the last one is among them *)
ReadSome(m, eof) ==
  /\ phase = "run" /\ k > 0
  /\ BLeq(BAdd(off, m), Avail)
  /\ eof => BAdd(off, m) = ar[k].size
  /\ off' = BAdd(off, m)
  /\ pos' = BAdd(pos, m)
  /\ UNCHANGED <<ar, cut, st, k, next, phase>>
(* Read reports the end of the file *)
ReadEnd ==
  /\ phase = "run" /\ k > 0 /\ off = ar[k].size
  /\ UNCHANGED cvars
(* Read delivers what is left of a file that is cut, and an error *)
ReadErr(m) ==
  /\ phase = "run" /\ k > 0
  /\ Avail # ar[k].size
  /\ BAdd(off, m) = Avail
  /\ off' = BAdd(off, m) /\ pos' = BAdd(pos, m)
  /\ phase' = "err"
  /\ UNCHANGED <<ar, cut, st, k, next>>

-----------------------------------------------------------------------------
(* Properties *)

(* what Read delivers are the bytes of the current file, from where it stopped *)
InFile == k > 0 => /\ pos = BAdd(DataStart(st[k], ar[k]), off)
                   /\ BLeq(off, ar[k].size)
                   /\ BLeq(pos, next)
(* skipping never needs to go backwards and always lands on an entry *)
OnEntry == k < Len(ar) /\ k + 1 <= Len(st) => next = st[k + 1]
(* nothing is delivered that the stream does not have *)
NotInvented == phase = "run" /\ k > 0 => Have(NameEnd(st[k], ar[k])) /\ BLeq(off, Avail)
(* the end is only reported for an archive whose trailer is there: a cut-off archive
   is never taken for a complete one *)
EndIsEnd == phase = "end" => /\ ar[k + 1].trailer
                             /\ Have(NameEnd(st[k + 1], ar[k + 1]))
(* entries come in order and each once *)
InOrder == [][k' \in {k, k + 1}]_cvars
=============================================================================
