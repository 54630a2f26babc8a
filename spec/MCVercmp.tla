------------------------------ MODULE MCVercmp ------------------------------
(* All pairs of strings over Alphabet up to MaxLen. *)
EXTENDS Vercmp, TLC, Json, SequencesExt
CONSTANTS Alphabet, MaxLen
Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == \E x, y \in Strings : Begin(x, y)
Next == Compare
=============================================================================
