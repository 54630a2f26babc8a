------------------------------ MODULE MCSigners ------------------------------
(* Two processes that sign to the same path or to different ones, in any interleaving, either of
   which may fail or be killed at any step. *)
EXTENDS Rewrite, TLC
CONSTANT SharedName  \* whether both would use the same name for their temporary file
Names == {"in", "out", "new"}
F(i, d) == [type |-> "file", ino |-> i, to |-> "", data |-> d]
VARIABLES fs0, fs, path, pc, hist
vars == <<fs0, fs, path, pc, hist>>
Me == {1, 2}
Data(p) == IF p = 1 THEN "signed" ELSE "signed2"
Tmp(p) == IF SharedName THEN "tmp" ELSE IF p = 1 THEN "tmp1" ELSE "tmp2"
Init == /\ fs0 \in {[n \in {"in"} |-> F(1, "pkg")], [n \in {"in", "out"} |-> IF n = "in" THEN F(1, "pkg") ELSE F(2, "old")],
                    [n \in {"in", "out"} |-> F(1, "pkg")]}
        /\ fs = fs0 /\ path \in [Me -> Names] /\ pc = [p \in Me |-> "create"]
        /\ hist = [n \in Names |-> {IF Has(fs0, n) THEN fs0[n].data ELSE "none"}]
Put(n, v) == [m \in DOMAIN fs \cup {n} |-> IF m = n THEN v ELSE fs[m]]
Del(n) == [m \in DOMAIN fs \ {n} |-> fs[m]]
See == hist' = [n \in Names |-> hist[n] \cup {IF Has(fs', n) THEN fs'[n].data ELSE "none"}]
Go(p, s) == pc' = [pc EXCEPT ![p] = s] /\ UNCHANGED <<fs0, path>> /\ See
(* the file that was created is written to, wherever it is called by now *)
Write(p, d) == [m \in DOMAIN fs |-> IF fs[m].ino = 10 + p THEN [fs[m] EXCEPT !.data = d] ELSE fs[m]]
Create(p) == pc[p] = "create" /\ ~Has(fs, Tmp(p)) /\ fs' = Put(Tmp(p), F(10 + p, "part")) /\ Go(p, "write")
(* a careless one takes a file that is there *)
Take(p) == pc[p] = "create" /\ Has(fs, Tmp(p)) /\ fs' = Put(Tmp(p), F(10 + p, "part")) /\ Go(p, "write")
Write1(p) == pc[p] = "write" /\ fs' = Write(p, "part") /\ Go(p, "write2")
Write2(p) == pc[p] = "write2" /\ fs' = Write(p, Data(p)) /\ Go(p, "rename")
Rename(p) == pc[p] = "rename" /\
  IF Has(fs, Tmp(p))
  THEN fs' = [m \in (DOMAIN fs \ {Tmp(p)}) \cup {path[p]} |-> IF m = path[p] THEN fs[Tmp(p)] ELSE fs[m]] /\ Go(p, "ok")
  ELSE fs' = fs /\ Go(p, "err")
Fail(p) == pc[p] \in {"write", "write2", "rename"} /\ fs' = fs /\ Go(p, "remove")
Remove(p) == pc[p] = "remove" /\ fs' = Del(Tmp(p)) /\ Go(p, "err")
Kill(p) == pc[p] \notin {"ok", "err", "killed"} /\ fs' = fs /\ Go(p, "killed")
Next == \E p \in Me : Create(p) \/ Take(p) \/ Write1(p) \/ Write2(p) \/ Rename(p) \/ Fail(p) \/ Remove(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Me : WF_vars(Create(p) \/ Take(p) \/ Write1(p) \/ Write2(p) \/ Rename(p) \/ Remove(p))

(* nothing but complete files is ever to be seen *)
Whole == \A n \in Names : hist[n] \subseteq {"none", "pkg", "old", "signed", "signed2"}
Stays == \A n \in DOMAIN fs0 : Has(fs, n)
Mine == \A n \in Names : (\A p \in Me : path[p] # n) => Has(fs, n) = Has(fs0, n) /\ (Has(fs, n) => fs[n] = fs0[n])
Success == \A p \in Me : pc[p] = "ok" => Data(p) \in hist[path[p]]
Tidy == (\A p \in Me : pc[p] \in {"ok", "err"}) => DOMAIN fs \subseteq Names
Good == (\A p \in Me : pc[p] = "ok") => \A p \in Me : fs[path[p]].data \in {Data(q) : q \in {r \in Me : path[r] = path[p]}}
Ends == <>(\A p \in Me : pc[p] \in {"ok", "err", "killed"})
=============================================================================
