--------------------------- MODULE MCExtractFault ---------------------------
(* How entries are extracted, call by call: directories above the entry one by one, what is in its
   place is removed, it is created, its contents are written, it is closed. Every call may fail, and
   the process may be killed before every call. cfs and cdata are the real file system; the state of
   Extract is that after the current entry, `old` that before. With `Ignore`, failures to write or
   close are not noticed. *)
EXTENDS ExtractPool, ExtractFault
CONSTANTS Pool, Inits, MaxEntries, Ignore
VARIABLES todo, cur, old, cfs, cdata, pc, end, lost
mvars == <<xvars, todo, cur, old, cfs, cdata, pc, end, lost>>
Now == [fs |-> fs, data |-> data, opt |-> opt]
Real == [fs |-> cfs, data |-> cdata]
Init ==
  /\ \E k \in Inits : fs = InitFS(k)
  /\ data = <<"out", "destx", "in">> /\ grp = <<>> /\ opaque = {<<>>} /\ dest = D /\ res = "run" /\ opt = {}
  /\ todo = MaxEntries /\ cur = EDir("dot") /\ old = Now /\ cfs = fs /\ cdata = data /\ pc = "next" /\ end = "" /\ lost = FALSE
(* only entries that can be extracted *)
Take == /\ pc = "next" /\ todo > 0 /\ todo' = todo - 1
        /\ \E e \in Pool : Place(e) /\ res' = "run" /\ cur' = e
        /\ old' = Now /\ pc' = "above" /\ UNCHANGED <<cfs, cdata, end, lost>>
at == At(old.fs, cur)
Same == UNCHANGED <<xvars, todo, cur, old, end, lost>>
(* the next directory above the entry that is missing *)
Missing == {p \in DOMAIN fs : p # at /\ p \notin DOMAIN cfs /\ p \notin DOMAIN old.fs}
Above == /\ pc = "above" /\ Same /\ UNCHANGED cdata
         /\ IF Missing = {} THEN pc' = "remove" /\ UNCHANGED cfs
            ELSE /\ pc' = pc
                 /\ LET p == CHOOSE p \in Missing : \A q \in Missing : Len(p) <= Len(q) IN cfs' = With(cfs, p, Dir)
Clear == /\ pc = "remove" /\ Same /\ UNCHANGED cdata
          /\ IF cur.t = "dir" \/ cur.t = "dev" THEN pc' = "make" /\ UNCHANGED cfs
             ELSE pc' = "make" /\ cfs' = [p \in DOMAIN cfs \ {at} |-> cfs[p]]
Make == /\ pc = "make" /\ Same
        /\ IF cur.t = "dev" THEN pc' = "next" /\ UNCHANGED <<cfs, cdata>>
           ELSE /\ cfs' = (IF cur.t = "dir" /\ at \in DOMAIN cfs THEN cfs ELSE With(cfs, at, fs[at]))
                /\ IF cur.t # "file" THEN pc' = "next" /\ UNCHANGED cdata
                   ELSE IF fs[at].id > Len(cdata) THEN pc' = "write" /\ cdata' = Append(cdata, "")
                   ELSE pc' = (IF cur.data = "" THEN "next" ELSE "trunc") /\ UNCHANGED cdata
Trunc == pc = "trunc" /\ Same /\ pc' = "write" /\ cdata' = [cdata EXCEPT ![fs[at].id] = ""] /\ UNCHANGED cfs
Write == pc = "write" /\ Same /\ pc' = "close" /\ cdata' = [cdata EXCEPT ![fs[at].id] = cur.data] /\ UNCHANGED cfs
Shut == pc = "close" /\ Same /\ pc' = "next" /\ UNCHANGED <<cfs, cdata>>
Finish == pc = "next" /\ todo = 0 /\ end' = "ok" /\ pc' = "over" /\ UNCHANGED <<xvars, todo, cur, old, cfs, cdata, lost>>
Fail == pc \notin {"next", "over"} /\ end' = "err" /\ pc' = "over" /\ UNCHANGED <<xvars, todo, cur, old, cfs, cdata, lost>>
(* the contents never arrived, and nobody knows *)
Lose == Ignore /\ pc \in {"write", "close"} /\ pc' = "next" /\ lost' = TRUE /\ cdata' = [cdata EXCEPT ![fs[at].id] = ""]
        /\ UNCHANGED <<xvars, todo, cur, old, cfs, end>>
Kill == pc # "over" /\ end' = "killed" /\ pc' = "over" /\ UNCHANGED <<xvars, todo, cur, old, cfs, cdata, lost>>
Next == Take \/ Above \/ Clear \/ Make \/ Trunc \/ Write \/ Shut \/ Finish \/ Fail \/ Lose \/ Kill
Spec == Init /\ [][Next]_mvars

Equal(s, p) == p \in DOMAIN cfs /\ p \in DOMAIN s.fs /\ cfs[p].t = s.fs[p].t /\ cfs[p].to = s.fs[p].to
               /\ (cfs[p].t = "file" => cdata[cfs[p].id] = s.data[s.fs[p].id])
(* success only when everything is there, and that is what the specification of extraction demands *)
Done == pc = "next" \/ end = "ok" => cfs = fs /\ cdata = data
(* at every moment: nothing has changed but what the entry touches, and that is old, absent, new or
   a beginning of the contents *)
Between ==
  LET tch == Touched(old, Now, at) IN
  /\ DOMAIN cfs \subseteq DOMAIN old.fs \cup DOMAIN fs
  /\ \A p \in DOMAIN old.fs \ tch : p \in DOMAIN cfs /\ cfs[p] = old.fs[p] /\ Equal(old, p)
  /\ \A p \in tch \cap DOMAIN cfs :
       Equal(old, p) \/ Equal(Now, p) \/ (cfs[p].t = "file" /\ p \in DOMAIN fs /\ fs[p].t = "file" /\ cdata[cfs[p].id] = "")
Outside1 == \A p \in DOMAIN cfs : ~Within(D, p) => p \in DOMAIN Outside /\ cfs[p] = Outside[p]
Outside2 == /\ \A p \in DOMAIN Outside : p \in DOMAIN cfs
            /\ cdata[1] = "out" /\ cdata[2] = "destx"
=============================================================================
