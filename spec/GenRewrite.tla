------------------------------ MODULE GenRewrite -----------------------------
(* Emits every small file system with every path, for the library to sign on. *)
EXTENDS Rewrite, TLC, Json
VARIABLES fs0, fs, pc, path, fits, res, piped
M == INSTANCE MCRewrite
Init == M!Init /\ fits = FALSE
Next == FALSE /\ UNCHANGED M!vars
Emit == PrintT("@@" \o ToJson([path |-> path, nodes |-> {[name |-> n, type |-> fs0[n].type, ino |-> fs0[n].ino, to |-> fs0[n].to, data |-> fs0[n].data] : n \in DOMAIN fs0}]))
=============================================================================
