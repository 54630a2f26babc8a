------------------------------ MODULE MCRewrite ------------------------------
(* The way of rewriting that the library uses, step by step, on every small file system; any
   step may fail and the process may be killed after any step. *)
EXTENDS Rewrite, TLC
Names == {"in", "out", "x"}
F(i, d) == [type |-> "file", ino |-> i, to |-> "", data |-> d]
L(i, n) == [type |-> "link", ino |-> i, to |-> n, data |-> ""]
O(i, t) == [type |-> t, ino |-> i, to |-> "", data |-> ""]
None == [type |-> "none", ino |-> 0, to |-> "", data |-> ""]
Setups == LET outs == {None, F(1, "pkg"), F(2, "old"), L(12, "in"), L(12, "x"), L(12, "out"), L(12, "z"), O(12, "fifo"), O(12, "dir")}
              xs == {None, F(1, "pkg"), F(2, "old"), F(3, "other"), L(13, "in"), L(13, "out"), L(13, "z"), O(13, "fifo")} IN
          {[n \in {n \in Names : (CASE n = "in" -> F(1, "pkg") [] n = "out" -> o [] n = "x" -> y) # None} |->
              CASE n = "in" -> F(1, "pkg") [] n = "out" -> o [] n = "x" -> y] : o \in outs, y \in xs}
Tmp == "tmp"
VARIABLES fs0, fs, pc, path, fits, res, piped
vars == <<fs0, fs, pc, path, fits, res, piped>>
Init == /\ fs0 \in Setups /\ fs = fs0 /\ pc = "start" /\ path \in {"in", "out"} /\ fits \in BOOLEAN /\ res = "" /\ piped = ""
Put(n, v) == [m \in DOMAIN fs \cup {n} |-> IF m = n THEN v ELSE fs[m]]
Del(n) == [m \in DOMAIN fs \ {n} |-> fs[m]]
Go(p) == pc' = p /\ UNCHANGED <<fs0, path, fits, res>>
Keep == UNCHANGED <<fs, piped>>
End(r) == pc' = "end" /\ res' = r /\ UNCHANGED <<fs0, path, fits>>
(* the target of a symbolic link to a regular file is what is replaced *)
Target == IF TypeAt(fs, path) = "file" THEN Final(fs, path) ELSE path
Overwrites == Has(fs, Target) /\ fs[Target].type = "file" /\ fs[Target].ino = 1 /\ Links(fs, Target) = {Target} /\ fits
Start == pc = "start" /\ Keep /\
  IF Overwrites THEN Go("inplace")
  ELSE IF Has(fs, Target) /\ fs[Target].type # "file" THEN Go("direct") ELSE Go("create")
(* in place: the new header is written over the old one *)
Here(n, d) == [m \in DOMAIN fs |-> IF fs[m].type = "file" /\ fs[m].ino = fs[n].ino THEN [fs[m] EXCEPT !.data = d] ELSE fs[m]]
InPlace1 == pc = "inplace" /\ fs' = Here(Target, "part") /\ UNCHANGED piped /\ Go("inplace2")
InPlace2 == pc = "inplace2" /\ fs' = Here(Target, "signed") /\ UNCHANGED piped /\ End("ok")
(* to something that is no regular file *)
Direct == pc = "direct" /\
  LET n == Final(fs, path) IN
  CASE TypeAt(fs, path) = "fifo" -> piped' = "signed" /\ UNCHANGED fs /\ End("ok")
    [] TypeAt(fs, path) = "none" -> fs' = Put(n, F(9, "part")) /\ UNCHANGED piped /\ Go("direct2")
    [] OTHER -> Keep /\ End("err")
Direct2 == pc = "direct2" /\ fs' = Here(Final(fs, path), "signed") /\ UNCHANGED piped /\ End("ok")
(* to a temporary file that is renamed *)
Create == pc = "create" /\ fs' = Put(Tmp, F(9, "part")) /\ UNCHANGED piped /\ Go("write")
Write == pc = "write" /\ fs' = Put(Tmp, F(9, "signed")) /\ UNCHANGED piped /\ Go("close")
Close == pc = "close" /\ Keep /\ Go("rename")
Rename == pc = "rename" /\ fs' = [m \in (DOMAIN fs \ {Tmp}) \cup {Target} |-> IF m = Target THEN fs[Tmp] ELSE fs[m]] /\ UNCHANGED piped /\ End("ok")
Remove == pc = "remove" /\ fs' = Del(Tmp) /\ UNCHANGED piped /\ End("err")
Fail == \/ pc \in {"start", "create"} /\ Keep /\ End("err")
        \/ pc \in {"write", "close", "rename"} /\ Keep /\ Go("remove")
        \/ pc \in {"inplace", "inplace2", "direct", "direct2"} /\ Keep /\ End("err")
Kill == pc # "end" /\ Keep /\ End("killed")
Next == Start \/ InPlace1 \/ InPlace2 \/ Direct \/ Direct2 \/ Create \/ Write \/ Close \/ Rename \/ Remove \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InPlaceRun == Has(fs0, Final(fs0, path)) /\ fs0[Final(fs0, path)].type = "file" /\ fs0[Final(fs0, path)].ino = 1
              /\ Links(fs0, Final(fs0, path)) = {Final(fs0, path)} /\ fits
Safe == Strict(fs0, path) /\ ~InPlaceRun =>
          /\ Survives(fs0, fs, path, "killed")
          /\ (pc = "end" => Survives(fs0, fs, path, res))
          /\ (~Has(fs, path) => TypeAt(fs0, path) = "none")
(* whatever happens, all that changes is the one file *)
Contained == \A m \in DOMAIN fs0 : Has(fs, m) /\ (m \notin {path, Final(fs0, path)} => fs[m] = fs0[m])
Right == pc = "end" /\ res = "ok" => Outcome(fs0, fs, path, TRUE, res, piped)
Refused == ~WorksAt(fs0, path, TRUE) => res # "ok"
Ends == <>(pc = "end")
=============================================================================
