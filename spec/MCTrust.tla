------------------------------- MODULE MCTrust -------------------------------
(* An attacker starts from a package that owner A signed and from keys of its own (X): it may
   change everything, recompute every digest and move signatures about, but signs only as X.
   Verification with A's key never accepts anything that A did not sign. *)
EXTENDS Trust, TLC
CONSTANT Tags   \* the signature tags that may be used
Pays == {"p0", "p1"}
Gens == [body : {0, 1}, pd : {"none", "p0", "p1"}]
Origin == [body |-> 0, pd |-> "p0"]
OldOrigin == [body |-> 0, pd |-> "none"]     \* another package of A's, from before payload digests
Made == {[by |-> "A", kind |-> k, gen |-> g, pay |-> "p0", state |-> "ok"] : k \in {"h", "hp"}, g \in {Origin, OldOrigin}}
Forged == {[by |-> "X", kind |-> "h", gen |-> g, pay |-> "p0", state |-> "ok"] : g \in Gens} \cup
          {[by |-> "X", kind |-> "hp", gen |-> g, pay |-> y, state |-> "ok"] : g \in Gens, y \in Pays} \cup
          {[s EXCEPT !.state = "value"] : s \in Made}
Digs == {[k |-> "none", gen |-> 0, pay |-> 0], [k |-> "bad", gen |-> 0, pay |-> 0]} \cup [k : {"of"}, gen : Gens, pay : {"p0"}]
Md5s == {[k |-> "none", gen |-> 0, pay |-> 0]} \cup [k : {"of"}, gen : Gens, pay : Pays]
None == [k |-> "none", gen |-> 0, pay |-> 0]
VARIABLE signer
Init == /\ pk \in [gen : Gens, pay : Pays, sha256 : {None} \cup {[k |-> "of", gen |-> g, pay |-> "p0"] : g \in {Origin, [body |-> 1, pd |-> "p1"]}}, sha1 : {None},
                   md5 : Md5s, sigs : [SigNames -> {<<>>}]]
        /\ signer = "nobody"
Attack(t, s) == signer = "nobody" /\ t \in Tags /\ pk.sigs[t] = <<>> /\ pk' = [pk EXCEPT !.sigs[t] = <<s>>] /\ UNCHANGED signer
Redigest(d) == signer = "nobody" /\ pk' = [pk EXCEPT !.sha1 = d] /\ pk.sha1 # d /\ UNCHANGED signer
DoSign(k) == signer # k /\ Sign(k) /\ signer' = k
Next == \/ \E t \in Tags : \E s \in Made \cup Forged : Attack(t, s)
        \/ pk.sigs = NoSigs /\ \E d \in Digs : Redigest(d)
        \/ \E k \in {"A", "B"} : DoSign(k)
ByA == {[gen |-> s.gen, pay |-> s.pay] : s \in Made}
(* what verification with the owner's key means *)
Authentic ==
  signer = "nobody" /\ Accept(pk, {"A"}) =>
    /\ (Present(pk) \cap PayloadTags # {} => [gen |-> pk.gen, pay |-> pk.pay] \in ByA)
    /\ (Present(pk) \cap HeaderTags # {} => \E m \in ByA : m.gen = pk.gen)
    /\ (Present(pk) # {} /\ pk.gen.pd # "none" => [gen |-> pk.gen, pay |-> pk.pay] \in ByA)
    /\ \A t \in Present(pk) : pk.sigs[t][1].by = "A"
Refuses == (\E t \in Present(pk) : pk.sigs[t][1].by = "X") => ~Accept(pk, {"A"})
AfterSigning == signer # "nobody" => /\ Accept(pk, {signer}) /\ ~Accept(pk, {"A", "B", "X"} \ {signer})
                                     /\ KeyMissing(pk, {"X"})
                                     /\ Present(pk) = {"rsa", "pgp"}
SignsWhole == signer # "nobody" => Whole(pk)
=============================================================================
