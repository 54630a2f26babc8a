-------------------------- MODULE TraceExtractFault --------------------------
(* Recorded extractions of which file operations failed, or that were killed. A scenario is one of
   TraceExtract with a single round, and
     fault |-> [mode |-> "none" | "error" | "kill" | "limit" | "perm", call, on]
     leak  |-> a file is still open
     pre   |-> << [p |-> path, k |-> entries whose contents start with those of the file] >>
   The entries up to some point have been extracted, the next one possibly in part. *)
EXTENDS TraceExtract, ExtractFault
VARIABLES hist, out
S == T[sc]
F == S.fault
Now == [fs |-> fs, data |-> data, opt |-> opt]
FInit == Init /\ hist = <<>> /\ out = FALSE
FLoad == Load /\ UNCHANGED <<hist, out>>
(* nothing outside has changed *)
Out == i > 0 /\ ~out /\ (OutsideSame(Round.after) = TRUE) /\ out' = TRUE /\ UNCHANGED <<tvars, hist>>
(* extraction goes on as it should; what was there at each point is remembered *)
Go == out /\ Entry /\ UNCHANGED out /\ hist' = Append(hist, Now)

(* contents of the file at p are a beginning of those of entry k *)
Begins(p, k) == \E x \in 1..Len(S.pre) : S.pre[x].p = p /\ \E y \in 1..Len(S.pre[x].k) : S.pre[x].k[y] = k
(* between b and a, while entry k is extracted *)
Between(b, a, k, after) ==
  \E root \in {Root(b.fs).p}, have \in {TreeOf(after)}, at \in {At(b.fs, Round.ents[k])} :
  \E bs \in {{p \in DOMAIN b.fs : Below(root, p) /\ Below(S.base, p)}},
     as \in {{p \in DOMAIN a.fs : Below(root, p) /\ Below(S.base, p)}},
     hs \in {{p \in DOMAIN have : Below(root, p) /\ Below(S.base, p)}} :
  LET touched == {p \in Touched(b, a, at) : p = at \/ p \in as}
      kept == bs \ touched
      like(p, s) == /\ p \in DOMAIN s.fs /\ have[p].t = s.fs[p].t /\ have[p].to.raw = s.fs[p].to.raw
                    /\ have[p].t = "file" => after.data[have[p].id] = s.data[s.fs[p].id]
      keptFiles == {p \in kept \cap hs : b.fs[p].t = "file"}
  IN /\ hs \subseteq bs \cup as
     /\ \A p \in kept : IF p \in hs THEN like(p, b) ELSE p \in b.opt \cup a.opt
     /\ \A p, q \in keptFiles : (have[p].id = have[q].id) = (b.fs[p].id = b.fs[q].id)
     /\ \A p \in touched \cap hs :
          like(p, b) \/ like(p, a) \/ (have[p].t = "file" /\ p \in DOMAIN a.fs /\ a.fs[p].t = "file" /\ Begins(p, k))
(* failures that may not be passed over: the contents may be lost *)
Fatal == F.mode = "error" /\ F.on = "out" /\ F.call \in {"write", "pwrite64", "writev", "close", "copy_file_range", "sendfile", "splice"}
All == Append(hist, Now)
Explained ==
  /\ ~S.leak \/ F.call = "close"
  /\ Round.res \in {"ok", "err", "killed"}
  /\ Round.res = "killed" => F.mode = "kill"
  /\ Fatal => Round.res # "ok"
  /\ CASE res = "free" -> TRUE
       [] res = "err" -> Round.res # "ok"
       [] res = "run" -> 
            CASE Round.res = "ok" -> InsideMatches(Round.after)
              [] OTHER -> /\ F.mode # "none"
                          /\ \/ InsideMatches(Round.after)
                             \/ \E k \in 1..Len(hist) : Between(All[k], All[k + 1], k, Round.after)
Judged ==
  /\ out /\ i > 0 /\ (res # "run" \/ i > Len(Round.ents))
  /\ (Explained = TRUE) /\ i' = -1 /\ UNCHANGED <<xvars, sc, r, hist, out>>
FNext == FLoad \/ Out \/ Go \/ Judged \/ (Done /\ UNCHANGED <<hist, out>>)
=============================================================================
