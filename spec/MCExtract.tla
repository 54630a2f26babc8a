----------------------------- MODULE MCExtract -----------------------------
(* Design check: all archives over a pool, in all initial file systems. *)
EXTENDS ExtractPool
CONSTANTS Pool, Inits, MaxEntries
VARIABLES todo, hist, fs0
mvars == <<xvars, todo, hist, fs0>>
Init ==
  /\ \E k \in Inits : fs = InitFS(k)
  /\ fs0 = fs
  /\ data = <<"out", "destx", "in">> /\ grp = <<>> /\ opaque = {<<>>} /\ dest = D /\ res = "run" /\ opt = {}
  /\ todo = MaxEntries /\ hist = <<>>
Next ==
  /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED fs0
  /\ \E e \in Pool :
       /\ Place(e)
       /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_mvars

(* C01: outside of the destination nothing is ever changed, created or removed *)
NothingOutside ==
  LET out == {p \in DOMAIN fs \cup DOMAIN fs0 : ~Within(D, p)} IN
  \A p \in out : p \in DOMAIN fs /\ p \in DOMAIN fs0 /\ fs[p] = fs0[p]
OutsideData == data[1] = "out" /\ data[2] = "destx" /\ data[3] = "in"
(* C02: what was extracted last is there, with the contents of its group *)
Root1 == Root(fs).p
Where(e) == Walk(fs, Root1, Sanitised(e.name), FALSE, Fuel)
LastThere ==
  (res = "run" /\ hist # <<>>) =>
    LET e == hist[Len(hist)] w == Where(e) IN
    CASE e.t = "dev" -> TRUE
      [] e.t = "dir" -> LET x == Walk(fs, Root1, Sanitised(e.name), TRUE, Fuel) IN x.s = "ok" /\ fs[x.p].t = "dir"
      [] e.t = "link" -> w.s = "ok" /\ fs[w.p] = Link(e.to)
      [] e.t = "fifo" -> w.s = "ok" /\ fs[w.p] = Fifo
      [] e.t = "file" -> /\ w.s = "ok" /\ fs[w.p].t = "file"
                         /\ e.data # "" => data[fs[w.p].id] = e.data
                         /\ e.key = "" => data[fs[w.p].id] = e.data
                         /\ Within(D, w.p)
(* all current names of a group are one file, which no other name shares, and which has
   the contents that any of its entries carried *)
Groups ==
  res = "run" => \A k \in DOMAIN grp :
    /\ \A p \in grp[k].names : p \in DOMAIN fs /\ fs[p] = File(grp[k].id)
    /\ grp[k].names # {} => {p \in DOMAIN fs : fs[p] = File(grp[k].id)} = grp[k].names
    /\ grp[k].names # {} /\ grp[k].had =>
         \E n \in 1..Len(hist) : hist[n].key = k /\ hist[n].data # "" /\ data[grp[k].id] = hist[n].data
(* every entry of the archive that no later one replaces is still there *)
AllThere ==
  res = "run" => \A n \in 1..Len(hist) :
    (/\ hist[n].t \in {"file", "fifo"}
     /\ \A m \in 1..Len(hist) : m > n => hist[m].t \in {"file", "fifo", "dir", "dev"} /\ Sanitised(hist[m].name) # Sanitised(hist[n].name)
     /\ \A q \in DOMAIN fs : fs[q].t # "link")
    => LET w == Where(hist[n]) IN w.s = "ok" /\ fs[w.p].t = hist[n].t
=============================================================================
