---------------------------- MODULE MCInterleave -----------------------------
(* A library whose calls take several steps: a call reads pieces of the user's input into a buffer
   and then answers from it, keeping what it has learned in the user's object. Buffers and objects
   belong to the object (Where = "own") or to the library: "buffer" - the buffer is shared,
   "memo" - what was learned for one input is taken for the next. Only "own" meets the contract,
   for all schedules of all programs; the others show that the contract tells the difference. *)
EXTENDS Interleave, FiniteSets, TLC
CONSTANTS Users, Calls, Pieces, Where
VARIABLES in, buf, sum, pc, at, got
vars == <<left, in, buf, sum, pc, at, got>>
B(u) == IF Where = "buffer" THEN 1 ELSE u
S(u) == IF Where = "memo" THEN 1 ELSE u
Piece(u, k) == in[u][((k - 1) % Len(in[u])) + 1]
(* what call c of a user answers: all read so far, and the last piece *)
RECURSIVE Total(_, _)
Total(u, k) == IF k = 0 THEN 0 ELSE Total(u, k - 1) + Piece(u, k)
Alone(u) == [c \in 1..Calls |-> <<c, Total(u, c * Pieces), [k \in 1..Pieces |-> Piece(u, (c - 1) * Pieces + k)]>>]
Init == /\ in \in [1..Users -> {<<1, 2, 1>>, <<3>>, <<2, 1>>}]
        /\ buf = [b \in 1..Users |-> <<>>] /\ sum = [b \in 1..Users |-> 0]
        /\ pc = [u \in 1..Users |-> 1] /\ at = [u \in 1..Users |-> 0]
        /\ IBegin([u \in 1..Users |-> Alone(u)])
        /\ got = <<>>
Read(u) ==
  /\ pc[u] <= Calls /\ at[u] < Pieces
  /\ LET x == Piece(u, (pc[u] - 1) * Pieces + at[u] + 1) IN
     /\ buf' = [buf EXCEPT ![B(u)] = (IF at[u] = 0 THEN <<>> ELSE @) \o <<x>>]
     /\ sum' = [sum EXCEPT ![S(u)] = @ + x]
  /\ at' = [at EXCEPT ![u] = @ + 1]
  /\ UNCHANGED <<left, in, pc, got>>
Return(u) ==
  /\ pc[u] <= Calls /\ at[u] = Pieces
  /\ got' = <<u, <<pc[u], sum[S(u)], buf[B(u)]>>>>
  /\ pc' = [pc EXCEPT ![u] = @ + 1] /\ at' = [at EXCEPT ![u] = 0]
  /\ left' = [left EXCEPT ![u] = Tail(@)]
  /\ UNCHANGED <<in, buf, sum>>
Done == (\A u \in 1..Users : pc[u] > Calls) /\ UNCHANGED vars
Next == Done \/ \E u \in 1..Users : Read(u) \/ Return(u)
Spec == Init /\ [][Next]_vars
(* every answer is one that the contract allows *)
AsAlone == [][got' # got => Answer(got'[1], got'[2], TRUE)]_vars
=============================================================================
