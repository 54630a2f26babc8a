------------------------------- MODULE Vercmp -------------------------------
(* rpm's version comparison (lib/rpmvercmp.c) as a step machine over two byte
   strings, and the order it induces.  A string is a sequence of byte values. *)
EXTENDS Integers, Sequences

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Tilde == 126
Caret == 94
IsSep(c) == ~(IsDigit(c) \/ IsAlpha(c) \/ c = Tilde \/ c = Caret)

(* position after the longest run of one class that starts at p *)
RECURSIVE SepEnd(_, _), DigitEnd(_, _), AlphaEnd(_, _), ZeroEnd(_, _, _)
SepEnd(s, p) == IF p <= Len(s) /\ IsSep(s[p]) THEN SepEnd(s, p + 1) ELSE p
DigitEnd(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN DigitEnd(s, p + 1) ELSE p
AlphaEnd(s, p) == IF p <= Len(s) /\ IsAlpha(s[p]) THEN AlphaEnd(s, p + 1) ELSE p
ZeroEnd(s, p, e) == IF p < e /\ s[p] = 48 THEN ZeroEnd(s, p + 1, e) ELSE p

At(s, p, c) == p <= Len(s) /\ s[p] = c
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* lexicographic comparison of a[p..pe) with b[q..qe), like strcmp *)
RECURSIVE Lex(_, _, _, _, _, _)
Lex(a, p, pe, b, q, qe) ==
  IF p = pe THEN (IF q = qe THEN 0 ELSE -1)
  ELSE IF q = qe THEN 1
  ELSE IF a[p] # b[q] THEN Sign(a[p] - b[q])
  ELSE Lex(a, p + 1, pe, b, q + 1, qe)

NumCmp(a, p, pe, b, q, qe) ==
  LET pz == ZeroEnd(a, p, pe)
      qz == ZeroEnd(b, q, qe)
  IN IF pe - pz # qe - qz THEN Sign((pe - pz) - (qe - qz))
     ELSE Lex(a, pz, pe, b, qz, qe)

Running == 2
R(p, q, res) == [p |-> p, q |-> q, res |-> res]

(* One round of the comparison at positions p of a and q of b. *)
Round(a, b, p, q) ==
  LET ps == SepEnd(a, p)
      qs == SepEnd(b, q)
      aEnd == ps > Len(a)
      bEnd == qs > Len(b)
  IN IF At(a, ps, Tilde) \/ At(b, qs, Tilde) THEN
       IF ~At(a, ps, Tilde) THEN R(ps, qs, 1)
       ELSE IF ~At(b, qs, Tilde) THEN R(ps, qs, -1)
       ELSE R(ps + 1, qs + 1, Running)
     ELSE IF At(a, ps, Caret) \/ At(b, qs, Caret) THEN
       IF aEnd THEN R(ps, qs, -1)
       ELSE IF bEnd THEN R(ps, qs, 1)
       ELSE IF ~At(a, ps, Caret) THEN R(ps, qs, 1)
       ELSE IF ~At(b, qs, Caret) THEN R(ps, qs, -1)
       ELSE R(ps + 1, qs + 1, Running)
     ELSE IF aEnd \/ bEnd THEN
       R(ps, qs, IF aEnd /\ bEnd THEN 0 ELSE IF aEnd THEN -1 ELSE 1)
     ELSE IF IsDigit(a[ps]) THEN
       LET pe == DigitEnd(a, ps)
           qe == DigitEnd(b, qs)
           c == NumCmp(a, ps, pe, b, qs, qe)
       IN IF qe = qs THEN R(ps, qs, 1)            \* numbers are newer than letters
          ELSE R(pe, qe, IF c = 0 THEN Running ELSE c)
     ELSE
       LET pe == AlphaEnd(a, ps)
           qe == AlphaEnd(b, qs)
           c == Lex(a, ps, pe, b, qs, qe)
       IN IF qe = qs THEN R(ps, qs, -1)
          ELSE R(pe, qe, IF c = 0 THEN Running ELSE c)

RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(a, b, p, q) ==
  LET r == Round(a, b, p, q)
  IN IF r.res = Running THEN CmpFrom(a, b, r.p, r.q) ELSE r.res
Cmp(a, b) == CmpFrom(a, b, 1, 1)

(* The sort key of a string: its tokens, each a sequence of numbers.  Comparing
   keys lexicographically is a total preorder by construction, so Cmp is one if it
   agrees with the keys. *)
RECURSIVE Tokens(_, _)
Tokens(s, p0) ==
  LET p == SepEnd(s, p0)
  IN IF p > Len(s) THEN << <<1>> >>
     ELSE IF s[p] = Tilde THEN << <<0>> >> \o Tokens(s, p + 1)
     ELSE IF s[p] = Caret THEN << <<2>> >> \o Tokens(s, p + 1)
     ELSE IF IsAlpha(s[p]) THEN
       LET e == AlphaEnd(s, p) IN << <<3>> \o SubSeq(s, p, e - 1) >> \o Tokens(s, e)
     ELSE
       LET e == DigitEnd(s, p)
           z == ZeroEnd(s, p, e)
       IN << <<4, e - z>> \o SubSeq(s, z, e - 1) >> \o Tokens(s, e)
Key(s) == Tokens(s, 1)

TokenCmp(x, y) == Lex(x, 1, Len(x) + 1, y, 1, Len(y) + 1)
RECURSIVE KeysCmp(_, _, _)
KeysCmp(k, m, n) ==
  IF n > Len(k) THEN (IF n > Len(m) THEN 0 ELSE -1)
  ELSE IF n > Len(m) THEN 1
  ELSE LET c == TokenCmp(k[n], m[n])
       IN IF c # 0 THEN c ELSE KeysCmp(k, m, n + 1)
KeyCmp(a, b) == KeysCmp(Key(a), Key(b), 1)

(* epoch, then version, then release *)
NevraCmp(e, v, r) == IF e # 0 THEN e ELSE IF v # 0 THEN v ELSE r

-----------------------------------------------------------------------------
VARIABLES a, b, p, q, res
vars == <<a, b, p, q, res>>

Begin(x, y) == a = x /\ b = y /\ p = 1 /\ q = 1 /\ res = Running

Compare ==
  /\ res = Running
  /\ LET r == Round(a, b, p, q)
     IN p' = r.p /\ q' = r.q /\ res' = r.res
  /\ UNCHANGED <<a, b>>

TypeOK == p \in 1..(Len(a) + 1) /\ q \in 1..(Len(b) + 1) /\ res \in {-1, 0, 1, Running}
(* the machine decides every pair the way the sort keys do, whence a total preorder *)
AgreesWithKey == res # Running => res = KeyCmp(a, b) /\ res = -Cmp(b, a)
EqualIsReflexive == a = b /\ res # Running => res = 0
(* every round consumes something or ends: the comparison always terminates *)
Progress == [][res' = Running => p' + q' > p + q]_vars
=============================================================================
