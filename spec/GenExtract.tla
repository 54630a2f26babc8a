----------------------------- MODULE GenExtract -----------------------------
(* Emits every archive over a pool with every initial file system. *)
EXTENDS ExtractPool, Json, SequencesExt
CONSTANTS Pool, Inits, MaxEntries
VARIABLES ents, init
Init ==
  /\ init \in Inits /\ ents \in UNION {[1..n -> Pool] : n \in 1..MaxEntries}
  /\ fs = <<>> /\ data = <<>> /\ grp = <<>> /\ opaque = {} /\ dest = D /\ res = "" /\ opt = {}
Next == FALSE /\ UNCHANGED <<xvars, ents, init>>
Emit == PrintT("@@" \o ToJson([init |-> init, ents |-> ents,
  fs |-> SetToSeq({[p |-> p, node |-> InitFS(init)[p]] : p \in DOMAIN InitFS(init)})]))
=============================================================================
