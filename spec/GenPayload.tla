------------------------------ MODULE GenPayload -----------------------------
EXTENDS MCPayload, TLC, Json
VARIABLE ord
GInit == \E l \in Lists : \E p \in Perms(Len(l)), bad \in (IF Len(l) < 3 THEN {0, 1, Len(l)} ELSE {0}) :
  /\ files = l /\ ord = [x \in 1..Len(l) |-> IF x = bad THEN Len(l) + 1 ELSE p[x]]
  /\ ents = <<>> /\ k = 0 /\ phase = "" /\ rest = TRUE
GNext == FALSE /\ UNCHANGED <<pvars, ord>>
Emit == PrintT("@@" \o ToJson([files |-> files, order |-> ord]))
=============================================================================
