----------------------------- MODULE MCSigHeader -----------------------------
(* Every set of tags from a pool of types and lengths, opened with every size, then written,
   signed and read again in every order. *)
EXTENDS SigHeader, TLC
CONSTANTS Depth, Slack
Mk(t, ty, c, b) == [tag |-> t, type |-> ty, cnt |-> c, b |-> b]
Pool == {Mk(62, 7, 16, Trailer(1)), Mk(267, 7, 3, <<1, 2, 3>>), Mk(268, 7, 1, <<9>>), Mk(269, 6, 1, <<97, 0>>), Mk(270, 5, 1, <<0, 0, 0, 1, 0, 0, 0, 0>>),
         Mk(1000, 4, 1, <<0, 0, 1, 0>>), Mk(1001, 3, 2, <<0, 7, 1, 1>>), Mk(1008, 7, 5, ZeroB(5)), Mk(1009, 8, 2, <<0, 98, 0>>),
         Mk(1010, 5, 1, <<1, 1, 1, 1, 1, 1, 1, 1>>), Mk(1011, 0, 1, <<>>)}
VARIABLES outs, depth   \* results by option since the tags last changed
mvars == <<wvars, outs, depth>>
None == [total |-> 0]
NoOuts == [s \in BOOLEAN |-> None]
Init == /\ \E p \in SUBSET Pool : \E x \in 0..Slack :
             /\ tags = Kept(p) /\ avail = Lay(p \ {Mk(62, 7, 16, Trailer(1))}).total + 8 * x
        /\ outs = NoOuts /\ depth = 0 /\ shape = 0 /\ pos = 0 /\ stage = 0
Write(same) == /\ outs[same] = None   \* writing again gives the same: Written depends on the state alone
               /\ outs' = [outs EXCEPT ![same] = Written(tags, avail, same)] /\ UNCHANGED <<wvars, depth>>
Sign(n) == depth < Depth /\ Signed(ZeroB(n), <<1>>) /\ outs' = NoOuts /\ depth' = depth + 1
Reread(same) == /\ depth < Depth /\ outs[same] # None
                /\ LET o == outs[same] IN Opened(TagsOf(o, Zeros(o.data)), o.total)
                /\ outs' = NoOuts /\ depth' = depth + 1
Next == /\ \/ \E s \in BOOLEAN : Write(s) \/ Reread(s)
           \/ \E n \in {1, 4} : Sign(n)
        /\ UNCHANGED hvars
Good == \A s \in BOOLEAN : outs[s] # None => GoodWrite(outs[s], Zeros(outs[s].data), s)
Sizes == \A s \in BOOLEAN : outs[s] # None => outs[s].total = (IF s /\ Need(tags) + 16 <= avail THEN avail ELSE Need(tags))
Smallest == outs[FALSE] # None /\ outs[TRUE] # None => outs[FALSE].total <= outs[TRUE].total
=============================================================================
