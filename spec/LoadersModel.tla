----------------------------- MODULE LoadersModel -----------------------------
(* Every short stored history (zeros, dips, plateaus): the cumulative maximum    *)
(* is monotone, idempotent, the least monotone history above the stored one,     *)
(* and commutes with every catalogue's conversion; chunks tile the rows.         *)
EXTENDS Loaders, TLC
CONSTANTS MaxLen, Levels
VARIABLES raw
Val(i) == IF i = 0 THEN NINF ELSE 9000000 + i * 1000000
Init == raw = <<>>
Next == Len(raw) < MaxLen /\ \E v \in 0..Levels : raw' = Append(raw, Val(v))
Spec == Init /\ [][Next]_raw
Kinds == {"hacc", "bpl", "publ"}
Monotone == NonDecreasing(RunMax(raw)) /\ RunMax(RunMax(raw)) = RunMax(raw) /\
            \A i \in 1..Len(raw) : RunMax(raw)[i] >= raw[i] /\ \E j \in 1..i : raw[j] = RunMax(raw)[i]
Commutes == \A k \in Kinds : Deliver(k, -150000, raw) = RunMax([ i \in 1..Len(raw) |-> Convert(k, -150000, raw[i]) ])
Delivered == \A k \in Kinds : NonDecreasing(Deliver(k, -150000, raw)) /\ RowOK(k, -150000, raw, Deliver(k, -150000, raw))
Chunks == \A n \in 0..7, k \in 1..5 : /\ UNION { ChunkRows(n, k, c) : c \in 0..k - 1 } = 0..n - 1
                                      /\ \A c \in 0..k - 1, e \in 0..k - 1 : c # e => ChunkRows(n, k, c) \cap ChunkRows(n, k, e) = {}
Emit == raw # <<>> => PrintT(<< "B", [ i \in 1..Len(raw) |-> IF raw[i] = NINF THEN 0 ELSE (raw[i] - 9000000) \div 1000000 ] >>)
=============================================================================
