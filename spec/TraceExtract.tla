---------------------------- MODULE TraceExtract ----------------------------
(* Recorded extractions.  A scenario has the tree before, and rounds of extraction into
   the same destination, each with the archive's entries, the result and the tree after. *)
EXTENDS Extract, TLC, Json, IOUtils
CONSTANT Judge   \* "outside" (C01) or "inside" (C02)
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, r, i
tvars == <<xvars, sc, r, i>>

TreeOf(snap) ==
  FoldLeft(LAMBDA f, n : (n.p :> [t |-> n.t, id |-> n.id, to |-> n.to]) @@ f, <<>>, snap.nodes)
Init ==
  /\ sc \in 1..Len(T) /\ r = 1 /\ i = 0
  /\ fs = <<>> /\ data = <<>> /\ grp = <<>> /\ opaque = {} /\ dest = <<>> /\ res = "run" /\ opt = {}
Load ==
  /\ i = 0 /\ i' = 1
  /\ fs' = TreeOf(T[sc].before) /\ data' = T[sc].before.data
  /\ opaque' = {T[sc].opaque[x] : x \in 1..Len(T[sc].opaque)} /\ dest' = T[sc].dest
  /\ UNCHANGED <<grp, res, opt, sc, r>>
Round == T[sc].rounds[r]

(* --- what is inside of the destination --- *)
InsideMatches(after) ==
  \E root \in {Root(fs).p}, have \in {TreeOf(after)} :
  \E ps \in {{p \in DOMAIN fs : Below(root, p) /\ Below(T[sc].base, p)}},
     hs \in {{p \in DOMAIN have : Below(root, p) /\ Below(T[sc].base, p)}} :
  \E files \in {{p \in ps : fs[p].t = "file"}} :
     /\ hs \subseteq ps /\ ps \ hs \subseteq opt
     /\ \A p \in hs : have[p].t = fs[p].t /\ have[p].to.raw = fs[p].to.raw
     /\ \A p \in files : after.data[have[p].id] = data[fs[p].id]
     /\ \A p, q \in files : (have[p].id = have[q].id) = (fs[p].id = fs[q].id)
Entry ==
  /\ i > 0 /\ res = "run" /\ i <= Len(Round.ents)
  /\ Place(Round.ents[i])
  /\ i' = i + 1 /\ UNCHANGED <<sc, r>>
Agrees ==
  CASE res = "free" -> TRUE
    [] res = "err" -> Round.res = "err"
    [] res = "run" -> Round.res = "ok" /\ InsideMatches(Round.after)
EndRound ==
  /\ i > 0 /\ (res # "run" \/ i > Len(Round.ents))
  /\ Agrees
  /\ IF res = "run" /\ r < Len(T[sc].rounds)
     THEN r' = r + 1 /\ i' = 1 /\ grp' = <<>> /\ UNCHANGED <<sc, fs, data, opaque, dest, res, opt>>
     ELSE i' = -1 /\ UNCHANGED <<xvars, sc, r>>

(* --- what is outside --- *)
AttrOf(snap) ==
  FoldLeft(LAMBDA f, n : (n.p :> n) @@ f, <<>>, snap.nodes)
OutsideSame(after) ==
  \E root \in {Root(fs).p}, b \in {AttrOf(T[sc].before)}, a \in {AttrOf(after)} :
  LET there == root \in DOMAIN fs
      (* the way to a destination that has to be created *)
      way(p) == ~there /\ Within(p, root)
      out(m) == {p \in DOMAIN m : ~Within(root, p) /\ ~way(p)}
  IN /\ out(a) = out(b)
     /\ \A p \in out(b) : a[p].a = b[p].a
     /\ there => root \in DOMAIN a /\ a[root].t = "dir" /\ a[root].ino = b[root].ino
     /\ \A p \in DOMAIN a : way(p) => a[p].t = "dir" /\ (p \in DOMAIN b => a[p].ino = b[p].ino)
Outside ==
  /\ i > 0
  /\ Root(fs).s = "ok"
  /\ \A k \in 1..Len(T[sc].rounds) : OutsideSame(T[sc].rounds[k].after)
  /\ i' = -1 /\ UNCHANGED <<xvars, sc, r>>
Done == i = -1 /\ UNCHANGED tvars
Next == \/ Load \/ Done
        \/ IF Judge = "inside" THEN Entry \/ EndRound ELSE Outside
=============================================================================
