----------------------------- MODULE ScatterModel -----------------------------
(* Root sends every other rank its share, then broadcasts the time table; all    *)
(* interleavings, with sends that return at once (Sync = FALSE) or only when     *)
(* received (TRUE).  Every complete schedule is emitted for replay.              *)
EXTENDS Scatter, TLC
CONSTANTS R, N, Sync
VARIABLES pc, got, box, tab, sched
vars == << pc, got, box, tab, sched >>
Ranks == 0..R - 1
Init == /\ pc = [ r \in Ranks |-> IF r = 0 THEN (IF R = 1 THEN "bcast" ELSE "send") ELSE "recv" ]
        /\ got = [ r \in Ranks |-> IF r = 0 THEN Share(N, R, 0) ELSE <<-1>> ]
        /\ box = [ r \in Ranks |-> <<>> ] /\ tab = [ r \in Ranks |-> r = 0 ] /\ sched = <<>>
Step(r) == sched' = Append(sched, r)
NextDest == Cardinality({ q \in Ranks : q # 0 /\ (box[q] # <<>> \/ pc[q] # "recv") }) + 1
Send == /\ pc[0] = "send"
        /\ (Sync => \A q \in Ranks : box[q] = <<>>)
        /\ LET d == NextDest IN
             /\ box' = [ box EXCEPT ![d] = << Share(N, R, d) >> ]
             /\ pc' = [ pc EXCEPT ![0] = IF d = R - 1 THEN "bcast" ELSE "send" ]
        /\ UNCHANGED << got, tab >> /\ Step(0)
Recv(r) == /\ pc[r] = "recv" /\ box[r] # <<>>
           /\ got' = [ got EXCEPT ![r] = box[r][1] ] /\ box' = [ box EXCEPT ![r] = <<>> ]
           /\ pc' = [ pc EXCEPT ![r] = "bcast" ] /\ UNCHANGED tab /\ Step(r)
Bcast(r) == /\ pc[r] = "bcast" /\ (r = 0 \/ pc[0] = "done")
            /\ (Sync /\ r = 0 => \A q \in Ranks : box[q] = <<>>)
            /\ tab' = [ tab EXCEPT ![r] = TRUE ]
            /\ pc' = [ pc EXCEPT ![r] = "done" ] /\ UNCHANGED << got, box >> /\ Step(r)
Next == Send \/ \E r \in Ranks : (r # 0 /\ Recv(r)) \/ Bcast(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A r \in Ranks : pc[r] = "done"
Correct == Done => /\ Flat([ i \in 1..R |-> got[i - 1] ]) = Whole(N)
                   /\ Balanced([ i \in 1..R |-> Len(got[i - 1]) ])
                   /\ \A r \in Ranks : tab[r]
NoDeadlock == Done \/ ENABLED Next
Tiles == \A n \in 0..9, k \in 1..6 : Upto(n, k, k) = Whole(n)
Terminates == <>Done
Emit == Done => PrintT(<< "S", R, sched >>)
=============================================================================
