------------------------------- MODULE Extract -------------------------------
(* Extracting an archive into a directory of a file system with symbolic links and
   hard links.

   Paths are sequences of names from the root of the file system.  fs maps every
   existing path to a node
     [t |-> "dir" | "file" | "link" | "fifo",
      id |-> the file's identity (0 for others), to |-> target of a link]
   where a link target is [raw |-> the stored string, abs |-> does it start with "/",
   c |-> its components].  data[id] are the contents.  Directories in `opaque` may have
   entries that are not in fs.

   An entry is
     [name |-> like a link target, t |-> "dir" | "file" | "link" | "fifo" | "dev" | "bad",
      data |-> contents, to |-> link target, key |-> hard-link group or ""].

   `res` is "run" while extraction goes on, "err" if it has to fail, and "free" if the
   entry can be refused or put somewhere inside of the destination; what happens then
   is not specified, except that nothing outside may change.

   `opt` are directories that only a skipped device entry needs: they may or may not be
   created. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES fs, data, grp, opaque, dest, res, opt
xvars == <<fs, data, grp, opaque, dest, res, opt>>

Front1(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]
NoTo == [raw |-> "", abs |-> FALSE, c |-> <<>>]
Dir == [t |-> "dir", id |-> 0, to |-> NoTo]
Fifo == [t |-> "fifo", id |-> 0, to |-> NoTo]
File(n) == [t |-> "file", id |-> n, to |-> NoTo]
Link(to) == [t |-> "link", id |-> 0, to |-> to]
Below(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Within(d, p) == p = d \/ Below(d, p)

(* Where path cs, taken from directory p, leads.  follow tells whether a link at its
   end is followed. *)
RECURSIVE Walk(_, _, _, _, _)
Walk(f, p, cs, follow, fuel) ==
  IF cs = <<>> THEN [s |-> "ok", p |-> p]
  ELSE IF f[p].t # "dir" THEN [s |-> "notdir", p |-> p]
  ELSE LET c == Head(cs) q == Append(p, c) rest == Tail(cs) IN
    IF c \in {"", "."} THEN Walk(f, p, rest, follow, fuel)
    ELSE IF c = ".." THEN Walk(f, IF p = <<>> THEN p ELSE Front1(p), rest, follow, fuel)
    ELSE IF q \notin DOMAIN f THEN [s |-> IF p \in opaque THEN "unknown" ELSE "missing", p |-> q]
    ELSE IF f[q].t = "link" /\ (rest # <<>> \/ follow)
    THEN IF fuel = 0 THEN [s |-> "loop", p |-> q]
         ELSE Walk(f, IF f[q].to.abs THEN <<>> ELSE p, f[q].to.c \o rest, follow, fuel - 1)
    ELSE Walk(f, q, rest, follow, fuel)
Fuel == 8
Resolve(f, p, c) == Walk(f, p, <<c>>, TRUE, Fuel)

(* Names: "." and empty components vanish, ".." removes the component before it, and
   what is left of ".." at the start is dropped.  A name of nothing but ".." has no place. *)
Clean(cs, abs) ==
  FoldLeft(LAMBDA acc, c :
             IF c \in {"", "."} THEN acc
             ELSE IF c # ".." THEN Append(acc, c)
             ELSE IF acc # <<>> /\ Last1(acc) # ".." THEN Front1(acc)
             ELSE IF abs THEN acc ELSE Append(acc, ".."), <<>>, cs)
(* after Clean, ".." only occurs at the start *)
DropUp(cs) == SelectSeq(cs, LAMBDA c : c # "..")
Sanitised(name) == DropUp(Clean(name.c, name.abs))
Placeless(name) == LET c == Clean(name.c, name.abs) IN c # <<>> /\ DropUp(c) = <<>>

With(f, p, node) == (p :> node) @@ f

(* The destination, created together with its parents if need be *)
Root(f0) ==
  FoldLeft(LAMBDA w, c :
             IF w.s # "ok" THEN w
             ELSE LET q == Append(w.p, c) IN
               IF q \notin DOMAIN w.f THEN [s |-> "ok", f |-> With(w.f, q, Dir), p |-> q]
               ELSE IF w.f[q].t = "dir" THEN [w EXCEPT !.p = q]
               ELSE LET to == Resolve(w.f, w.p, c) IN
                 IF to.s = "ok" /\ w.f[to.p].t = "dir" THEN [w EXCEPT !.p = to.p]
                 ELSE [w EXCEPT !.s = "err"],
           [s |-> "ok", f |-> f0, p |-> <<>>], dest)

(* The directory that the names cs lead to from directory p inside of root, missing ones
   being created *)
Parents(f0, root, cs) ==
  FoldLeft(LAMBDA w, c :
             IF w.s # "ok" THEN w
             ELSE LET q == Append(w.p, c) IN
               IF q \notin DOMAIN w.f
               THEN IF w.p \in opaque THEN [w EXCEPT !.s = "free"]
                    ELSE [s |-> "ok", f |-> With(w.f, q, Dir), p |-> q]
               ELSE IF w.f[q].t = "dir" THEN [w EXCEPT !.p = q]
               ELSE LET to == Resolve(w.f, w.p, c) IN
                 IF to.s = "unknown" THEN [w EXCEPT !.s = "free"]
                 ELSE IF to.s # "ok" \/ w.f[to.p].t # "dir" THEN [w EXCEPT !.s = "err"]   \* a clash
                 ELSE IF ~Within(root, to.p) THEN [w EXCEPT !.s = "free"]                 \* leads outside
                 ELSE [w EXCEPT !.p = to.p],
           [s |-> "ok", f |-> f0, p |-> root], cs)

Stop(r) == res' = r /\ UNCHANGED <<fs, data, grp, opaque, dest, opt>>
(* the tree becomes f, with node at p *)
Put(f, p, node) == /\ fs' = With(f, p, node)
                   /\ opt' = {o \in opt : ~Within(o, p)}
                   /\ UNCHANGED <<opaque, dest, res>>

(* names that stop being members of a hard-link group because they are replaced *)
Forget(g, p) == [k \in DOMAIN g |-> [g[k] EXCEPT !.names = @ \ {p}]]

PlaceFile(f, p, e) ==
  LET g == Forget(grp, p) IN
  IF e.key = "" THEN
    /\ Put(f, p, File(Len(data) + 1))
    /\ data' = Append(data, e.data) /\ grp' = g
  ELSE IF e.key \notin DOMAIN g \/ g[e.key].names = {} THEN
    IF e.key \in DOMAIN g /\ g[e.key].had /\ e.data = ""
    THEN Stop("free")            \* the only name with the group's contents was replaced
    ELSE
      /\ Put(f, p, File(Len(data) + 1))
      /\ data' = Append(data, e.data)
      /\ grp' = [k \in DOMAIN g \cup {e.key} |->
                 IF k = e.key THEN [names |-> {p}, id |-> Len(data) + 1, had |-> e.data # ""] ELSE g[k]]
  ELSE LET m == g[e.key] IN
    IF m.had /\ e.data # "" /\ e.data # data[m.id]
    THEN Stop("free")            \* members that disagree
    ELSE
      /\ Put(f, p, File(m.id))
      /\ data' = IF e.data = "" THEN data ELSE [data EXCEPT ![m.id] = e.data]
      /\ grp' = [g EXCEPT ![e.key] = [names |-> m.names \cup {p}, id |-> m.id, had |-> m.had \/ e.data # ""]]

(* a device entry is skipped, but the directories above it may be created *)
Skip(f) == /\ fs' = f /\ opt' = opt \cup (DOMAIN f \ DOMAIN fs)
           /\ UNCHANGED <<data, grp, opaque, dest, res>>

Place(e) ==
  /\ res = "run"
  /\ IF Placeless(e.name) THEN Stop("free")
     ELSE IF e.t = "bad" THEN Stop("err")
     ELSE LET rel == Sanitised(e.name) r == Root(fs) IN
       IF r.s # "ok" THEN Stop("err")
       ELSE IF rel = <<>> THEN
         IF e.t = "dir" THEN Put(r.f, r.p, Dir) /\ UNCHANGED <<data, grp>>
         ELSE IF e.t = "dev" THEN Skip(r.f)
         ELSE Stop("err")
       ELSE
         LET w == Parents(r.f, r.p, Front1(rel))
             p == Append(w.p, Last1(rel))
             node == w.f[p]
             (* a clash with a directory that may not be there *)
             clash == IF \E o \in opt : Within(o, p) \/ Within(p, o) THEN Stop("free") ELSE Stop("err") IN
         IF w.s = "free" THEN Stop("free")
         ELSE IF w.s = "err" THEN (IF e.t = "dev" THEN Stop("free") ELSE clash)
         ELSE IF e.t = "dev" THEN Skip(w.f)
         ELSE IF p \notin DOMAIN w.f /\ w.p \in opaque THEN Stop("free")
         ELSE IF e.t = "dir" THEN
           IF p \notin DOMAIN w.f \/ node.t = "dir" THEN Put(w.f, p, Dir) /\ UNCHANGED <<data, grp>>
           ELSE IF node.t # "link" THEN clash
           ELSE LET to == Resolve(w.f, w.p, Last1(rel)) IN
             IF to.s = "unknown" THEN Stop("free")
             ELSE IF to.s = "ok" /\ w.f[to.p].t = "dir"
             THEN Put(w.f, p, node) /\ UNCHANGED <<data, grp>>
             ELSE clash
         ELSE IF p \in DOMAIN w.f /\ node.t = "dir" THEN clash
         ELSE IF e.t = "file" THEN PlaceFile(w.f, p, e)
         ELSE IF e.t = "link" THEN
           IF e.to.raw = "" THEN Stop("free")
           ELSE Put(w.f, p, Link(e.to)) /\ grp' = Forget(grp, p) /\ UNCHANGED data
         ELSE Put(w.f, p, Fifo) /\ grp' = Forget(grp, p) /\ UNCHANGED data
=============================================================================
