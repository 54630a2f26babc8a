----------------------------- MODULE TraceOrder -----------------------------
(* The order that the implementation's comparison induces, judged by its own
   recorded results: a total preorder, sorted lists, and composition of the package
   comparison.  Scenarios:
     kind "matrix": r[x][y] is the result of comparing item x with item y
     kind "sort":   before, after: the items (by id); r over positions of after
     kind "nevra":  ev: << <<epoch, version, release, package>> >> results *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
V == INSTANCE Vercmp WITH a <- <<>>, b <- <<>>, p <- 1, q <- 1, res <- 2
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
Init == sc \in 1..Len(T) /\ i = 1

Sgn == {-1, 0, 1}
(* row x of a total preorder: results are signs, reflexive, antisymmetric, and
   x <= y, y <= z imply x <= z *)
RowOK(r, x) ==
  LET n == Len(r) IN
  /\ r[x][x] = 0
  /\ \A y \in 1..n :
       /\ r[x][y] \in Sgn
       /\ r[x][y] = -r[y][x]
       /\ r[x][y] <= 0 => \A z \in 1..n :
            r[y][z] <= 0 => /\ r[x][z] <= 0
                            /\ (r[x][y] < 0 \/ r[y][z] < 0) => r[x][z] < 0
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SortOK(t) ==
  /\ Len(t.before) = Len(t.after)
  /\ \A k \in 1..Len(t.before) : Count(t.before, t.before[k]) = Count(t.after, t.before[k])
  /\ \A x, y \in 1..Len(t.after) : x < y => t.r[x][y] <= 0

Len_(t) == IF t.kind = "matrix" THEN Len(t.r) ELSE IF t.kind = "nevra" THEN Len(t.ev) ELSE 1
Step ==
  LET t == T[sc] IN
  /\ i <= Len_(t)
  /\ CASE t.kind = "matrix" -> RowOK(t.r, i)
       [] t.kind = "sort" -> SortOK(t)
       [] t.kind = "nevra" -> t.ev[i][4] = V!NevraCmp(t.ev[i][1], t.ev[i][2], t.ev[i][3])
  /\ i' = i + 1 /\ UNCHANGED sc
Done == i > Len_(T[sc]) /\ UNCHANGED <<sc, i>>
Next == Step \/ Done
=============================================================================
