------------------------------ MODULE GenHeader ------------------------------
(* Entries over one data area, for execution. *)
EXTENDS Header, TLC, Json
CONSTANT MaxLen
VARIABLES data, ent
Patterns == UNION {{[x \in 1..n |-> p[((x - 1) % Len(p)) + 1]] : p \in {<<97, 0>>, <<255, 1, 0>>, <<0>>, <<127, 255, 255, 255, 128>>}} : n \in 0..MaxLen}
Init == /\ data \in Patterns
        /\ ent \in [tag : {1000}, type : (-1..11), off : (-1..Len(data) + 1), cnt : (-1..Len(data) + 1) \cup {65537, 536870912, 1073741825, 2147483647}]
        /\ shape = 0 /\ pos = 0 /\ stage = 0
Next == FALSE /\ UNCHANGED <<data, ent, hvars>>
Emit == PrintT("@@" \o ToJson([type |-> ent.type, off |-> ent.off, cnt |-> ent.cnt, data |-> data, ok |-> InArea(data, Zeros(data), ent)]))
=============================================================================
