-------------------------------- MODULE Big ---------------------------------
(* Non-negative numbers beyond TLC's 32-bit integers: <<hi, lo>> stands for
   hi * 2^28 + lo. *)
EXTENDS Integers, Sequences
Base == 268435456
Big(n) == <<n \div Base, n % Base>>
BAdd(x, y) == LET s == x[2] + y[2] IN <<x[1] + y[1] + s \div Base, s % Base>>
BSub(x, y) == IF x[2] >= y[2] THEN <<x[1] - y[1], x[2] - y[2]>>
              ELSE <<x[1] - y[1] - 1, x[2] + Base - y[2]>>
BLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
BLeq(x, y) == x = y \/ BLess(x, y)
BMin(x, y) == IF BLess(x, y) THEN x ELSE y
(* the next multiple of 4, of 8 *)
Pad4(x) == LET r == x[2] % 4 IN IF r = 0 THEN x ELSE BAdd(x, <<0, 4 - r>>)
Pad8(x) == LET r == x[2] % 8 IN IF r = 0 THEN x ELSE BAdd(x, <<0, 8 - r>>)
Zero == <<0, 0>>
=============================================================================
