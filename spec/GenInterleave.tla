---------------------------- MODULE GenInterleave ----------------------------
(* Emits every order in which Users users take Turns turns each. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Users, Turns
VARIABLE s
Count(u) == Len(SelectSeq(s, LAMBDA x : x = u))
Init == s = <<>>
Next == \E u \in 1..Users : Count(u) < Turns /\ s' = Append(s, u)
Emit == Len(s) = Users * Turns => PrintT("@@" \o ToJson(s))
=============================================================================
