----------------------------- MODULE UnchunkModel -----------------------------
(* S subvolumes of C chunks; runs over any range; crashes at any point and runs   *)
(* again with any range.  A run stops when a chunk file is missing.                *)
EXTENDS Unchunk, TLC
CONSTANTS S, C, MaxRuns
VARIABLES chunks, col, pc, lo, hi, v, buf, runs, del, complete
vars == << chunks, col, pc, lo, hi, v, buf, runs, del, complete >>
Sub == 0..S - 1
Row(s, c) == 10 * s + c
Rows == [ i \in 1..S * C |-> Row((i - 1) \div C, (i - 1) % C) ]
Init == /\ chunks = [ s \in Sub |-> [ c \in 0..C - 1 |-> TRUE ] ] /\ col = [ s \in Sub |-> [ here |-> "no", rows |-> <<>> ] ]
        /\ pc = "idle" /\ lo = 0 /\ hi = 0 /\ v = 0 /\ buf = <<>> /\ runs = 0 /\ del = <<>> /\ complete = {}
Begin == /\ pc = "idle" /\ runs < MaxRuns /\ \E a \in Sub, b \in 1..S : a < b /\ lo' = a /\ hi' = b /\ v' = a
         /\ pc' = "read" /\ buf' = <<>> /\ runs' = runs + 1 /\ del' = <<>> /\ complete' = {} /\ UNCHANGED << chunks, col >>
Read == /\ pc = "read" /\ UNCHANGED << chunks, col, lo, hi, v, runs, complete >>
        /\ IF \E c \in 0..C - 1 : ~ chunks[v][c]
           THEN pc' = "idle" /\ UNCHANGED << buf, del >>            \* a chunk is missing: the run stops
           ELSE /\ buf' = [ i \in 1..C |-> Row(v, i - 1) ] /\ del' = del \o [ i \in 1..C |-> << v, i - 1 >> ] /\ pc' = "open"
Open == /\ pc = "open" /\ col' = [ col EXCEPT ![v] = [ here |-> "part", rows |-> <<>> ] ] /\ pc' = "close"
        /\ UNCHANGED << chunks, lo, hi, v, buf, runs, del, complete >>
Close == /\ pc = "close" /\ col' = [ col EXCEPT ![v] = [ here |-> "full", rows |-> buf ] ] /\ complete' = complete \cup {v}
         /\ v' = v + 1 /\ pc' = IF v + 1 = hi THEN "delete" ELSE "read"
         /\ UNCHANGED << chunks, lo, hi, buf, runs, del >>
Delete == /\ pc = "delete" /\ UNCHANGED << col, lo, hi, v, buf, runs, complete >>
          /\ IF del = <<>> THEN pc' = "idle" /\ UNCHANGED << chunks, del >>
             ELSE chunks' = [ chunks EXCEPT ![del[1][1]][del[1][2]] = FALSE ] /\ del' = Tail(del) /\ UNCHANGED pc
Crash == /\ pc # "idle" /\ pc' = "idle" /\ UNCHANGED << chunks, col, lo, hi, v, buf, runs, del, complete >>
Next == Begin \/ Read \/ Open \/ Close \/ Delete \/ Crash
Spec == Init /\ [][Next]_vars
Owner == [ f \in Sub \X (0..C - 1) |-> f[1] ]
RECURSIVE FilesOf(_)
FilesOf(s) == IF s = S THEN <<>>
              ELSE << IF col[s].here = "full" THEN col[s].rows ELSE <<>> >>
                   \o [ i \in 1..C |-> IF chunks[s][i - 1] THEN << Row(s, i - 1) >> ELSE <<>> ] \o FilesOf(s + 1)
RowsKept == NoLoss(Rows, FilesOf(0))
SafeDelete == (pc = "delete" /\ del # <<>>) => MayDelete(complete, Owner, del[1])
Collated == \A s \in complete : col[s].here = "full" => col[s].rows = [ i \in 1..C |-> Row(s, i - 1) ]
=============================================================================
