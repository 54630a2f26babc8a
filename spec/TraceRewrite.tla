----------------------------- MODULE TraceRewrite ----------------------------
(* Recorded signing on real files. A scenario is [path, parents, inode, before, after, res, piped,
   fault |-> [mode, call, on], inplace |-> whether this signing is done in place when nothing fails]. *)
EXTENDS Rewrite, TLC, Json, IOUtils
CONSTANT Judge   \* "faults", "names"
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, b, a
S == T[sc]
FS(s) == [n \in {s[k].name : k \in 1..Len(s)} |->
            LET x == s[CHOOSE k \in 1..Len(s) : s[k].name = n] IN [type |-> x.type, ino |-> x.ino, to |-> x.to, data |-> x.data]]
Init == sc \in 1..Len(T) /\ i = 0 /\ a = <<>> /\ b = <<>>
Load == i = 0 /\ i' = 1 /\ b' = FS(S.before) /\ a' = FS(S.after) /\ UNCHANGED sc
P == S.path
F == S.fault
(* failures that cannot be without consequence *)
Fatal == F.mode = "error" /\ (\/ F.call \in {"read", "pread64", "write", "pwrite64"} /\ F.on \in {"in", "out", "pipe"}
                              \/ F.call = "close" /\ F.on = "out"
                              \/ F.call \in {"rename", "renameat", "renameat2"})
Arrived == IF S.to # "path" \/ TypeAt(b, P) = "fifo" THEN S.piped = "signed" ELSE Delivered(b, a, P)
Faulty ==
  /\ (Fatal => S.res = "err") /\ (S.res = "killed" => F.mode = "kill") /\ S.res \in {"ok", "err", "killed"}
  /\ (S.res = "ok" => Arrived)
  /\ CASE S.to # "path" -> Untouched(b, a)
       [] S.to = "path" /\ S.inplace -> Same(b, a, {P, Final(b, P)})
       [] S.to = "path" /\ ~S.inplace /\ Strict(b, P) -> Survives(b, a, P, S.res)
       [] OTHER -> Same(b, a, {P, Final(b, P)} \cup (DOMAIN a \ DOMAIN b))
(* one process is stopped, another signs with another key in the meantime, to S.path2, and the first
   goes on. All other names than those there before, in the middle, are temporary files of the first. *)
Two == Strict(b, P) =>
  LET P2 == S.path2
      m == FS(S.mid)
      temps == DOMAIN m \ (DOMAIN b \cup {P, P2})
      c == [n \in DOMAIN m \ temps |-> m[n]]
      holds(f, p, d) == \E n \in {p, Final(b, p)} : Has(f, n) /\ f[n].type = "file" /\ f[n].data = d IN
  /\ S.res = "ok" /\ S.res2 = "ok"
  /\ \/ DeliveredAs(b, c, P2, "signed2") /\ Delivered(c, a, P)
     \/ (* the first had nothing left to do *)
        /\ m = a /\ Same(b, a, {P, P2, Final(b, P), Final(b, P2)})
        /\ holds(a, P2, "signed2") /\ (P # P2 => holds(a, P, "signed"))
Faults == CASE F.mode = "none" -> TRUE [] F.mode = "two" -> Two [] OTHER -> Faulty
Names ==
  F.mode = "none" =>
    CASE S.to = "path" -> Outcome(b, a, P, S.parents, S.res, S.piped)
      [] S.to = "pipe" -> S.res = "ok" /\ Untouched(b, a) /\ S.piped = "signed"
      [] S.to = "full" -> S.res = "err" /\ Untouched(b, a)
(* signing leaves open what was open, and nothing else; a close that fails has not happened *)
Closed == S.leak => F.mode = "error" /\ F.call \in {"close", "EINTR close"}
Good == Closed /\ (IF Judge = "faults" THEN Faults ELSE Names)
Check == i = 1 /\ (Good = TRUE) /\ i' = 2 /\ UNCHANGED <<sc, a, b>>
Done == i = 2 /\ UNCHANGED <<sc, i, a, b>>
Next == Load \/ Check \/ Done
=============================================================================
