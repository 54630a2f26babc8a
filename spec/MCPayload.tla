------------------------------ MODULE MCPayload ------------------------------
EXTENDS Payload
CONSTANTS MaxFiles
Kinds == {[t |-> "reg", dev |-> d, ino |-> n, size |-> s] : d \in {"1", "2"}, n \in {"0", "1"}, s \in {"0", "3"}}
         \cup {[t |-> "dir", dev |-> "1", ino |-> "1", size |-> "3"], [t |-> "link", dev |-> "1", ino |-> "1", size |-> "2"]}
Name(i) == <<"/a", "/b", "/c", "/d">>[i]
Lists == UNION {[1..n -> Kinds] : n \in 0..MaxFiles}
Files(l) == [i \in 1..Len(l) |-> [name |-> Name(i), t |-> l[i].t, dev |-> l[i].dev, ino |-> l[i].ino, size |-> l[i].size,
                                  linklen |-> "2", rec |-> Name(i)]]
Perms(n) == {p \in [1..n -> 1..n] : \A x, y \in 1..n : p[x] = p[y] => x = y}
Ent(fs, i, strip) ==
  IF strip THEN [k |-> "strip", idx |-> i, name |-> "", len |-> IF i > Len(fs) THEN "0" ELSE
                  CASE fs[i].t = "reg" -> (IF IsLink(fs, i) THEN "0" ELSE fs[i].size) [] fs[i].t = "link" -> "2" [] OTHER -> "0"]
  ELSE [k |-> "newc", idx |-> 0, name |-> IF i > Len(fs) THEN "/x" ELSE fs[i].name, len |-> "1"]
Init == \E l \in Lists : \E p \in Perms(Len(l)), s \in [1..Len(l) -> BOOLEAN], bad \in 0..Len(l) :
  Begin(Files(l), [x \in 1..Len(l) |-> Ent(Files(l), IF x = bad THEN Len(l) + 1 ELSE p[x], s[x])])
Next == NextOK \/ NextErr \/ NextEnd
(* exactly one of them can happen *)
Total == phase = "run" => ENABLED Next
WF == \A x \in 1..Len(ents) : WellFormed(files, ents[x])
(* of each group of names exactly the last one is not a link; names that stand alone are not links *)
OneHolder == \A i \in 1..Len(files) :
  LET grp == {j \in 1..Len(files) : j = i \/ Same(files[i], files[j])} IN
  Cardinality({j \in grp : ~IsLink(files, j)}) = 1 /\ ~IsLink(files, CHOOSE m \in grp : \A j \in grp : j <= m)
(* an archive with all files in any order returns every record exactly once *)
Complete == phase = "end" => {RecordOf(files, ents[x]) : x \in 1..Len(ents)} = 1..Len(files)
=============================================================================
