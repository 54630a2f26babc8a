----------------------------- MODULE Interleave ------------------------------
(* Several users of the library, each making calls on objects of its own (or reading a header that
   is shared). The contract: what the calls of a user answer is what they answer when the user is
   alone, whatever the others do in between, and what was answered stays as it is. *)
EXTENDS Integers, Sequences

VARIABLE left                       \* by user: the answers that are still to come
IBegin(alone) == left = alone
Answer(u, x, still) ==
  /\ u \in DOMAIN left /\ left[u] # <<>>
  /\ x = Head(left[u]) /\ still
  /\ left' = [left EXCEPT ![u] = Tail(@)]
Finished(still) == (\A u \in DOMAIN left : left[u] = <<>>) /\ \A u \in DOMAIN still : still[u]
=============================================================================
