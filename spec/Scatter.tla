------------------------------- MODULE Scatter -------------------------------
(***************************************************************************)
(* Distribution of n items over R ranks: contiguous shares in rank order,  *)
(* sizes differing by at most one, the larger ones first.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Mn(a, b) == IF a < b THEN a ELSE b
Lo(n, R, r) == r * (n \div R) + Mn(r, n % R)
Share(n, R, r) == [ i \in 1..(Lo(n, R, r + 1) - Lo(n, R, r)) |-> Lo(n, R, r) + i - 1 ]
RECURSIVE Upto(_, _, _)
Upto(n, R, r) == IF r = 0 THEN <<>> ELSE Upto(n, R, r - 1) \o Share(n, R, r - 1)
Whole(n) == [ i \in 1..n |-> i - 1 ]
Balanced(lens) == \A i \in 1..Len(lens), j \in 1..Len(lens) : lens[i] - lens[j] <= 1
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
