------------------------------- MODULE GenCpio ------------------------------
(* Emits archives, consumer programs and cut positions to execute. *)
EXTENDS MCCpio, Json
CONSTANTS Patterns,  \* what the consumer does with each entry
          WithCuts   \* whether to emit cut positions
VARIABLE pat
GInit == \E a \in Archives : \E p \in [1..(Len(a) - 1) -> Patterns] :
           Begin(a, <<>>) /\ pat = p
GNext == FALSE /\ UNCHANGED <<cvars, pat>>
Emit == PrintT("@@" \o ToJson([ar |-> ar, pat |-> pat,
                               cuts |-> IF WithCuts THEN Cuts(ar) ELSE {}]))
=============================================================================
