------------------------------- MODULE Damage -------------------------------
(* Extracting an archive that may be damaged, as a consumer of the reader of Cpio: it
   goes from entry to entry, taking or skipping the contents, and must not report success
   unless it has come to an undamaged trailer.

   dmg = [kind |-> "none" | "cut" | "field" | "type" | "lost", n |-> entry]
     cut    the stream stops at byte `cut` (end of file or read error)
     field  the magic number or a number in the header of entry n is malformed
     type   entry n has a file type that is not supported
     lost   the stream stops somewhere before the trailer *)
EXTENDS Cpio
VARIABLE dmg
dvars == <<cvars, dmg>>

Hit(n, kind) == dmg.kind = kind /\ dmg.n = n
(* entry k + 1 is taken, with all of its contents *)
Take ==
  /\ ~Hit(k + 1, "field") /\ ~Hit(k + 1, "type")
  /\ NextOK /\ UNCHANGED dmg
TakeBad ==
  /\ phase = "run" /\ k < Len(ar)
  /\ Hit(k + 1, "field") \/ (Hit(k + 1, "type") /\ ~ar[k + 1].trailer)
  /\ Fail /\ UNCHANGED dmg
Stuck ==
  /\ phase = "run" /\ k < Len(ar)
  /\ ~Have(NameEnd(st[k + 1], ar[k + 1])) \/ (dmg.kind = "lost" /\ ar[k + 1].trailer)
  /\ Fail /\ UNCHANGED dmg
Finish ==
  /\ phase = "run" /\ k < Len(ar) /\ ar[k + 1].trailer /\ ~Hit(k + 1, "field") /\ dmg.kind # "lost"
  /\ NextEnd /\ UNCHANGED dmg
(* exactly one of them is possible at each point *)
XStep == IF phase = "run" /\ k < Len(ar) /\ (Hit(k + 1, "field") \/ Hit(k + 1, "type")) /\ ~(Hit(k + 1, "type") /\ ar[k + 1].trailer)
         THEN TakeBad ELSE Stuck \/ Take \/ Finish

NeverComplete ==
  phase = "end" =>
    /\ dmg.kind \notin {"field", "lost"} \/ dmg.n > Len(ar)
    /\ dmg.kind = "type" => ar[dmg.n].trailer
    /\ Complete \/ BLeq(NameEnd(st[Len(ar)], ar[Len(ar)]), cut)
=============================================================================
