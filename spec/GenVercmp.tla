----------------------------- MODULE GenVercmp ------------------------------
(* Emits the strings whose pairs the implementation is asked to compare. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Next == FALSE /\ UNCHANGED s
Emit == PrintT("@@" \o ToJson(s))
=============================================================================
