------------------------------ MODULE MCDamage ------------------------------
(* All damages of all archives over a pool. *)
EXTENDS Damage
CONSTANTS NLens, Sizes, MaxEntries
Ents == [k : {"newc"}, nlen : NLens, size : {Big(x) : x \in Sizes}, trailer : {FALSE}]
Tr == [k |-> "newc", nlen |-> 11, size |-> Zero, trailer |-> TRUE]
Archives == {[x \in 1..n + 1 |-> IF x <= n THEN es[x] ELSE Tr] : n \in 0..MaxEntries, es \in [1..MaxEntries -> Ents]}
Total(a) == LET s == Starts(a) IN NameEnd(s[Len(a)], a[Len(a)])[2]
Init == \E a \in Archives :
  \/ /\ dmg \in [kind : {"none", "field", "type", "lost"}, n : 1..Len(a)] /\ Begin(a, <<>>)
  \/ /\ dmg = [kind |-> "cut", n |-> 0] /\ \E c \in 0..Total(a) + 3 : Begin(a, Big(c))
Next == XStep
(* damage before the end of the trailer's name is always noticed, and intact archives are read *)
Verdict ==
  ~ENABLED XStep => CASE dmg.kind \in {"field", "lost"} -> phase = "err"
                      [] dmg.kind = "type" -> phase = (IF ar[dmg.n].trailer THEN "end" ELSE "err")
                      [] dmg.kind = "none" -> phase = "end"
                      [] dmg.kind = "cut" -> phase = (IF BLess(cut, Big(Total(ar))) THEN "err" ELSE "end")
Decides == ~ENABLED XStep => phase # "run"
=============================================================================
