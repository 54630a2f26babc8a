---------------------------- MODULE ExtractFault ----------------------------
(* What may be there when the extraction of an entry has stopped half way. A state of extraction is
   [fs, data, opt]; b and a are the states before and after the entry. *)
EXTENDS Extract

(* where an entry goes *)
At(f, e) ==
  LET rel == Sanitised(e.name) r == Root(f) IN
  IF rel = <<>> THEN r.p ELSE LET w == Parents(r.f, r.p, Front1(rel)) IN Append(w.p, Last1(rel))
(* the paths that may be in between: the entry's own, new directories above it, and all names of
   the file whose contents the entry carries *)
Touched(b, a, at) ==
  LET node == IF at \in DOMAIN a.fs THEN a.fs[at] ELSE Dir IN
  {at} \cup {p \in DOMAIN a.fs : p \notin DOMAIN b.fs \/ b.fs[p] # a.fs[p] \/ (a.fs[p].t = "file" /\ node.t = "file" /\ a.fs[p].id = node.id)}
=============================================================================
