----------------------------- MODULE OutlineModel -----------------------------
(* A job writes one line per fit into one text file per rank, reads them back   *)
(* in rank order and writes the columns: every row of every rank, in order.     *)
(* Every reachable final state is emitted as a behaviour to replay.             *)
EXTENDS Outline, TLC, Json, IOUtils
CONSTANTS MaxRows, Ranks
VARIABLES withid, files, cols, pc
vars == << withid, files, cols, pc >>
Kinds == {"skip", "bfgs", "adam", "huge", "tiny", "neg"}
RECURSIVE Tot(_, _)
Tot(f, r) == IF r = 0 THEN 0 ELSE Len(f[r]) + Tot(f, r - 1)
RECURSIVE Cat(_, _)
Cat(f, r) == IF r = 0 THEN <<>> ELSE Cat(f, r - 1) \o f[r]
\* a row is its kind and its global index; its line is one token per name
Tok(row, name) == << row, name >>
Line(row) == [ j \in 1..Len(Names(withid)) |-> Tok(row, Names(withid)[j]) ]
Init == withid \in BOOLEAN /\ files = [ r \in 1..Ranks |-> <<>> ] /\ cols = [ n \in {} |-> <<>> ] /\ pc = "fit"
Write(r) == /\ pc = "fit" /\ Tot(files, Ranks) < MaxRows
            /\ \A q \in r+1..Ranks : files[q] = <<>>          \* halos are split in order
            /\ \E k \in Kinds : files' = [ files EXCEPT ![r] = Append(@, Line(<< k, Tot(files, Ranks) + 1 >>)) ]
            /\ UNCHANGED << withid, cols, pc >>
Collate == /\ pc = "fit" /\ Tot(files, Ranks) > 0
           /\ pc' = "done"
           /\ LET rows == Cat(files, Ranks)
                  n == Names(withid)
              IN cols' = [ nm \in { n[j] : j \in 1..Len(n) } |->
                             LET j == CHOOSE j \in 1..Len(n) : n[j] = nm IN [ i \in 1..Len(rows) |-> rows[i][j] ] ]
           /\ UNCHANGED << withid, files >>
Next == (\E r \in 1..Ranks : Write(r)) \/ Collate
Spec == Init /\ [][Next]_vars
Columns == pc = "done" =>
   /\ DOMAIN cols = { Names(withid)[j] : j \in 1..Len(Names(withid)) }
   /\ \A nm \in DOMAIN cols : /\ Len(cols[nm]) = Tot(files, Ranks)
                              /\ \A i \in 1..Len(cols[nm]) : cols[nm][i][2] = nm /\ cols[nm][i][1][2] = i
Digits == << [s |-> 1, hi |-> 999999, lo |-> 500002, x |-> 3], [s |-> 1, hi |-> 100000, lo |-> 0, x |-> 4] >>
RoundLaws == /\ RoundsTo(Digits[1], Digits[2])
             /\ ~ RoundsTo([s |-> 1, hi |-> 123456, lo |-> 400000, x |-> 0], [s |-> 1, hi |-> 123457, lo |-> 0, x |-> 0])
             /\ ~ RoundsTo([s |-> -1, hi |-> 123456, lo |-> 0, x |-> 0], [s |-> 1, hi |-> 123456, lo |-> 0, x |-> 0])
Emit == pc = "done" => PrintT(<< "B", IF withid THEN 1 ELSE 0,
            [ r \in 1..Ranks |-> [ i \in 1..Len(files[r]) |-> files[r][i][1][1][1] ] ] >>)
=============================================================================
