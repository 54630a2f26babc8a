------------------------------- MODULE Rewrite -------------------------------
(* Signing to a path, on a file system. fs is a function from the names that exist to
   [type |-> "file" | "link" | "fifo" | "dir", ino, to, data]; names with the same ino are hard
   links of one file, to is the name a symbolic link leads to, data is what a file has:
   "pkg" (the package to sign), "signed" (the complete signed package) or anything else. *)
EXTENDS Integers, Sequences, FiniteSets

Has(fs, n) == n \in DOMAIN fs
RECURSIVE Follow(_, _, _)
Follow(fs, n, k) == IF Has(fs, n) /\ fs[n].type = "link" THEN (IF k = 0 THEN "/loop" ELSE Follow(fs, fs[n].to, k - 1)) ELSE n
Final(fs, p) == Follow(fs, p, 8)
TypeAt(fs, p) == LET n == Final(fs, p) IN IF n = "/loop" THEN "loop" ELSE IF Has(fs, n) THEN fs[n].type ELSE "none"
Links(fs, n) == {m \in DOMAIN fs : fs[m].type = "file" /\ fs[m].ino = fs[n].ino}

(* nothing but the file called n has changed, which is now the signed package and shares its
   contents with no other name *)
Same(fs0, fs1, S) == \A m \in (DOMAIN fs0 \cup DOMAIN fs1) \ S : Has(fs0, m) /\ Has(fs1, m) /\ fs0[m] = fs1[m]
ReplacedAs(fs0, fs1, n, d) ==
  /\ Same(fs0, fs1, {n}) /\ Has(fs1, n) /\ fs1[n].type = "file" /\ fs1[n].data = d
  /\ \A m \in DOMAIN fs0 \ {n} : fs0[m].ino # fs1[n].ino
(* a link may be replaced, or what it leads to *)
DeliveredAs(fs0, fs1, p, d) == ReplacedAs(fs0, fs1, p, d) \/ ReplacedAs(fs0, fs1, Final(fs0, p), d)
Delivered(fs0, fs1, p) == DeliveredAs(fs0, fs1, p, "signed")
Untouched(fs0, fs1) == fs0 = fs1

(* signing to p: what may be there afterwards when nothing fails *)
WorksAt(fs0, p, parents) == parents /\ TypeAt(fs0, p) \in {"none", "file", "fifo"}
Outcome(fs0, fs1, p, parents, res, piped) ==
  CASE ~WorksAt(fs0, p, parents) -> res = "err" /\ Untouched(fs0, fs1)
    [] TypeAt(fs0, p) = "fifo" -> res = "ok" /\ Untouched(fs0, fs1) /\ piped = "signed"
    [] OTHER -> res = "ok" /\ Delivered(fs0, fs1, p)

(* whether the guarantees about failures apply: the path is new or names a regular file, which is
   not rewritten in place *)
InPlace(fs0, fs1, inode, p) == LET n == Final(fs0, p) IN Has(fs0, n) /\ fs0[n].ino = inode /\ Has(fs1, n) /\ fs1[n].ino = inode
Strict(fs0, p) == TypeAt(fs0, p) = "file" \/ ~Has(fs0, p)
(* when something fails or the process is killed; T are the names of temporary files *)
Survives(fs0, fs1, p, res) ==
  CASE res = "ok" -> Delivered(fs0, fs1, p)
    [] res = "err" -> Untouched(fs0, fs1)
    [] res = "killed" -> LET T == DOMAIN fs1 \ (DOMAIN fs0 \cup {p})
                             rest == [m \in DOMAIN fs1 \ T |-> fs1[m]] IN
                         Untouched(fs0, rest) \/ Delivered(fs0, rest, p)
=============================================================================
