------------------------------- MODULE MCFault -------------------------------
(* Operations that read in pieces of known length: each piece is read until it is complete, and an
   error that comes with its last byte is dropped or reported; draining goes on until the stream
   says that it ends. Checked: the result is always one that Fault allows, for every way to cut
   what is read into pieces and reads, and every failure. `Careless` makes a piece that stops short
   for a failure count as read, to see that it matters. *)
EXTENDS Fault, Sequences, FiniteSets
CONSTANTS N, Careless
VARIABLES total, ends, op, fail, pos, stage, res, spent   \* spent: the stream has failed and goes on
vars == <<total, ends, op, fail, pos, stage, res, spent>>
Kinds == [at : 0..N + 1, kind : {"eof", "err"}, with : BOOLEAN, once : BOOLEAN]
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Seqs(S \ {m})
Init == /\ total \in 0..N
        /\ \E S \in SUBSET (0..total) : ends = Seqs(S)
        /\ \E d \in BOOLEAN :
             LET last == IF ends = <<>> THEN 0 ELSE ends[Len(ends)] IN
             op = [need |-> IF d THEN total ELSE last, drain |-> d, slack |-> IF d THEN total ELSE last, full |-> last]
        /\ fail \in Kinds /\ fail.at <= total + 1 /\ (fail.kind = "eof" => fail.at <= total /\ ~fail.once)
        /\ pos = 0 /\ stage = 1 /\ res = "run" /\ spent = FALSE
Goal == IF stage <= Len(ends) THEN ends[stage] ELSE total
Draining == stage > Len(ends)
(* a read of the stream for n bytes delivers some, or fails *)
Fails(p) == p = fail.at /\ ~spent
Read ==
  /\ res = "run" /\ (Draining => op.drain)
  /\ IF ~Draining /\ pos = Goal THEN stage' = stage + 1 /\ UNCHANGED <<pos, res, spent>>
     ELSE IF Fails(pos) THEN
       \* nothing more: the end, or an error
       /\ IF Careless /\ ~Draining THEN stage' = stage + 1 /\ spent' = fail.once /\ UNCHANGED <<pos, res>>
          ELSE /\ res' = (IF Draining /\ fail.kind = "eof" /\ pos = total THEN "ok" ELSE "err") /\ UNCHANGED <<pos, stage, spent>>
     ELSE IF Draining /\ pos = total THEN res' = "ok" /\ UNCHANGED <<pos, stage, spent>>   \* the proper end
     ELSE \E q \in pos + 1..Goal :
       /\ (~spent => q <= fail.at) /\ pos' = q
       /\ IF Fails(q) /\ fail.with /\ fail.kind = "err"
          THEN /\ spent' = fail.once
               /\ \/ res' = "err" /\ UNCHANGED stage
                  \/ q = Goal /\ ~Draining /\ res' = res /\ stage' = stage + 1
          ELSE UNCHANGED <<stage, res, spent>>
(* a drained stream that ends early is found out by its digests *)
Finish == /\ res = "run" /\ Draining /\ ~op.drain /\ res' = "ok" /\ UNCHANGED <<pos, stage, spent>>
Next == (Read \/ Finish) /\ UNCHANGED <<total, ends, op, fail>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Allowed == res # "run" => res \in May(op, fail)
Ends == <>(res # "run")
=============================================================================
