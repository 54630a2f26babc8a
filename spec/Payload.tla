------------------------------- MODULE Payload -------------------------------
(* The extended payload reader: pairs the entries of a package's payload with the file
   records of its header.

   A file is [name, t |-> "reg" | "dir" | "link" | ..., dev, ino |-> strings, size |-> its size
   in the header (a string), rec |-> all its attributes].
   A payload entry is [k |-> "newc" | "strip", name |-> name without "." in front (newc),
   idx |-> position from 1 in the list of files (strip), data |-> contents]. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files, ents, k, phase, rest
pvars == <<files, ents, k, phase, rest>>

(* regular files with the same device and inode are names of one file *)
Same(f, g) == f.t = "reg" /\ g.t = "reg" /\ f.ino # "0" /\ f.dev = g.dev /\ f.ino = g.ino
IsLink(fs, i) == \E j \in i + 1..Len(fs) : Same(fs[i], fs[j])
(* the record of an entry, 0 if it has none *)
RecordOf(fs, e) ==
  IF e.k = "strip" THEN IF e.idx \in 1..Len(fs) THEN e.idx ELSE 0
  ELSE IF \E i \in 1..Len(fs) : fs[i].name = e.name THEN CHOOSE i \in 1..Len(fs) : fs[i].name = e.name ELSE 0
(* a stripped entry that is a link has no contents; else the header tells its size *)
WellFormed(fs, e) ==
  e.k = "strip" /\ RecordOf(fs, e) # 0 =>
    LET f == fs[RecordOf(fs, e)] IN
    e.len = CASE f.t = "reg" -> (IF IsLink(fs, RecordOf(fs, e)) THEN "0" ELSE f.size)
              [] f.t = "link" -> f.linklen
              [] OTHER -> "0"

Begin(fs, es) == files = fs /\ ents = es /\ k = 0 /\ phase = "run" /\ rest = TRUE
NextOK == /\ phase = "run" /\ k < Len(ents) /\ RecordOf(files, ents[k + 1]) # 0
          /\ k' = k + 1 /\ rest' = TRUE /\ UNCHANGED <<files, ents, phase>>
NextErr == /\ phase = "run" /\ k < Len(ents) /\ RecordOf(files, ents[k + 1]) = 0
           /\ phase' = "err" /\ UNCHANGED <<files, ents, k, rest>>
NextEnd == /\ phase \in {"run", "end"} /\ k = Len(ents)
           /\ phase' = "end" /\ UNCHANGED <<files, ents, k, rest>>
Cur == RecordOf(files, ents[k])
(* reading: the rest of the entry, or some of it *)
ReadAll == phase = "run" /\ k > 0 /\ rest' = FALSE /\ UNCHANGED <<files, ents, k, phase>>
=============================================================================
