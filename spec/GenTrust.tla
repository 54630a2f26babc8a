------------------------------ MODULE GenTrust -------------------------------
(* Emits packages for the code to judge: all combinations of digests ("digests"), and all
   signatures in each tag and combinations of them ("sigs"). *)
EXTENDS Trust, TLC, Json
CONSTANT What
VARIABLES forms
Here == [body |-> 0, pd |-> "p0"]
Digest(k, g, y) == [k |-> k, gen |-> g, pay |-> y]
None == Digest("none", 0, "")
Bad == Digest("bad", 0, "")
Other(g) == [g EXCEPT !.body = 1]
DInit == \E pd \in {"none", "unknown", "bad", "p0", "p1"} :
           LET g == [body |-> 0, pd |-> pd]
               D == {None, Bad, Digest("of", g, ""), Digest("of", Other(g), "")} IN
           /\ pk \in [gen : {g}, pay : {"p0"}, sha256 : D, sha1 : D,
                      md5 : {None, Bad, Digest("of", g, "p0"), Digest("of", Other(g), "p0"), Digest("of", g, "p1")}, sigs : {NoSigs}]
           /\ forms = "both"
Plain(sg) == [gen |-> Here, pay |-> "p0", sha256 |-> Digest("of", Here, ""), sha1 |-> None, md5 |-> None, sigs |-> sg]
Keys == {"A", "Aa", "B", "Bb", "X"}
Overs == {<<Here, "p0">>, <<Other(Here), "p0">>, <<Here, "p1">>}
Mk(b, k, o, st) == [by |-> b, kind |-> k, gen |-> o[1], pay |-> o[2], state |-> st]
States == {"ok", "hashed", "value", "trailing", "nosig", "claim"}
Some(k) == {<<>>, <<Mk("A", k, <<Here, "p0">>, "ok")>>, <<Mk("Aa", k, <<Here, "p0">>, "ok")>>, <<Mk("B", k, <<Here, "p0">>, "ok")>>, <<Mk("X", k, <<Here, "p0">>, "ok")>>,
            <<Mk("A", k, <<Here, "p0">>, "value")>>, <<Mk("A", IF k = "h" THEN "hp" ELSE "h", <<Here, "p0">>, "ok")>>}
Few(k) == {<<>>, <<Mk("A", k, <<Here, "p0">>, "ok")>>, <<Mk("Bb", k, <<Here, "p0">>, "ok")>>, <<Mk("X", k, <<Here, "p0">>, "value")>>}
One == {[t \in SigNames |-> IF t = u THEN <<Mk(b, k, o, st)>> ELSE <<>>] : u \in SigNames, b \in Keys, k \in {"h", "hp"}, o \in Overs, st \in States}
Two == {[t \in SigNames |-> IF t = u THEN a ELSE IF t = v THEN b ELSE <<>>] : u \in SigNames, v \in SigNames, a \in Some("h"), b \in Some("hp")} \cup
       {[t \in SigNames |-> IF t \in {"rsa", "pgp"} THEN <<>> ELSE IF t = "dsa" THEN a ELSE b] : a \in Some("h"), b \in Some("hp")} \cup
       {[t \in SigNames |-> IF t \in PayloadTags THEN <<>> ELSE IF t = "rsa" THEN a ELSE b] : a \in Some("h"), b \in Some("h")} \cup
       {[t \in SigNames |-> IF t \in HeaderTags THEN <<>> ELSE IF t = "pgp" THEN a ELSE b] : a \in Some("hp"), b \in Some("hp")}
Four == {[t \in SigNames |-> CASE t = "rsa" -> a [] t = "dsa" -> b [] t = "pgp" -> c [] OTHER -> d] :
           a \in Few("h"), b \in Few("h"), c \in Few("hp"), d \in Few("hp")}
SInit == \/ \E sg \in One : pk = Plain(sg) /\ forms \in {"both", "id", "fpr", "unhashed"}
         \/ \E sg \in Two \cup Four : pk = Plain(sg) /\ forms = "both"
Init == IF What = "digests" THEN DInit ELSE SInit
Next == FALSE /\ UNCHANGED <<pk, forms>>
D(d) == [k |-> d.k, gen |-> IF d.k = "of" THEN d.gen.body ELSE 0, pay |-> IF d.k = "of" THEN d.pay ELSE ""]
Emit == PrintT("@@" \o ToJson([body |-> pk.gen.body, pd |-> pk.gen.pd, pay |-> pk.pay, sha256 |-> D(pk.sha256), sha1 |-> D(pk.sha1), md5 |-> D(pk.md5), forms |-> forms,
                               sigs |-> {[tag |-> t, by |-> pk.sigs[t][1].by, kind |-> pk.sigs[t][1].kind, body |-> pk.sigs[t][1].gen.body,
                                          pay |-> pk.sigs[t][1].pay, state |-> pk.sigs[t][1].state] : t \in Present(pk)}]))
=============================================================================
