---------------------------- MODULE PipelineModel ----------------------------
(* A job of R ranks: each writes its rows into its own file, all meet at a       *)
(* barrier, the root reads the files in rank order, writes the output, deletes    *)
(* every temporary file.  The job may crash at any point and be run again with    *)
(* any number of ranks on whatever was left on disk.                               *)
EXTENDS Pipeline, TLC
CONSTANTS MaxR, N, MaxCrash
VARIABLES R, pc, tmp, col, out, st, crashes, k, sched
vars == << R, pc, tmp, col, out, st, crashes, k, sched >>
view == << R, pc, tmp, col, out, st, crashes, k >>
AllR == 0..MaxR - 1
None == [ here |-> FALSE, rows |-> <<>> ]
Whole == [ i \in 1..N |-> i ]
Reset(q) == /\ R' = q /\ pc' = [ r \in AllR |-> IF r < q THEN "start" ELSE "off" ]
            /\ col' = <<>> /\ st' = [ Idle EXCEPT !.outs = {-1} ] /\ k' = 0 /\ sched' = <<>>
Init == /\ R \in 1..MaxR /\ pc = [ r \in AllR |-> IF r < R THEN "start" ELSE "off" ]
        /\ tmp = [ r \in AllR |-> None ] /\ col = <<>> /\ out = "none" /\ st = [ Idle EXCEPT !.outs = {-1} ]
        /\ crashes = 0 /\ k = 0 /\ sched = <<>>
By(r) == sched' = Append(sched, r)
Open(r) == /\ pc[r] = "start" /\ pc' = [ pc EXCEPT ![r] = "fit" ]
           /\ tmp' = [ tmp EXCEPT ![r] = [ here |-> TRUE, rows |-> <<>> ] ]
           /\ st' = AfterWrite(st, r) /\ UNCHANGED << R, col, out, crashes, k >> /\ By(r)
Fit(r) == /\ pc[r] = "fit" /\ LET h == HalosOf(N, R, r) IN
             IF Len(tmp[r].rows) < Len(h)
             THEN tmp' = [ tmp EXCEPT ![r].rows = Append(@, h[Len(@) + 1]) ] /\ UNCHANGED pc
             ELSE pc' = [ pc EXCEPT ![r] = "barrier" ] /\ UNCHANGED tmp
          /\ UNCHANGED << R, col, out, st, crashes, k >> /\ By(r)
Leave(r) == /\ pc[r] = "barrier" /\ \A q \in 0..R - 1 : pc[q] \notin {"start", "fit"}
            /\ pc' = [ pc EXCEPT ![r] = IF r = 0 THEN "read" ELSE "done" ]
            /\ UNCHANGED << R, tmp, col, out, st, crashes, k >> /\ By(r)
Read == /\ pc[0] = "read" /\ UNCHANGED << R, tmp, crashes >> /\ By(0)
        /\ IF k < R THEN /\ col' = col \o tmp[k].rows /\ st' = AfterRead(st, k) /\ k' = k + 1 /\ UNCHANGED << pc, out >>
           ELSE /\ out' = "part" /\ pc' = [ pc EXCEPT ![0] = "save" ] /\ UNCHANGED << col, st, k >>
Save == /\ pc[0] = "save" /\ out' = "full" /\ st' = AfterOutput(st) /\ pc' = [ pc EXCEPT ![0] = "clean" ]
        /\ UNCHANGED << R, tmp, col, crashes, k >> /\ By(0)
Clean == /\ pc[0] = "clean" /\ UNCHANGED << R, col, out, crashes, k >> /\ By(0)
         /\ IF \E f \in AllR : tmp[f].here
            THEN LET f == CHOOSE f \in AllR : tmp[f].here IN
                 tmp' = [ tmp EXCEPT ![f] = None ] /\ st' = AfterDelete(st, f) /\ UNCHANGED pc
            ELSE pc' = [ pc EXCEPT ![0] = "done" ] /\ UNCHANGED << tmp, st >>
Crash == /\ crashes < MaxCrash /\ \E r \in 0..R - 1 : pc[r] # "done"
         /\ crashes' = crashes + 1 /\ \E q \in 1..MaxR : Reset(q)
         /\ UNCHANGED << tmp, out >>
Work == (\E r \in 0..R - 1 : Open(r) \/ Fit(r) \/ Leave(r)) \/ Read \/ Save \/ Clean
Next == Work \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
Done == \A r \in 0..R - 1 : pc[r] = "done"
ReadsFinished == (pc[0] = "read" /\ k < R) => MayRead(st, k, pc[k] = "fit")
DeletesSaved == (pc[0] = "clean") => \A f \in AllR : tmp[f].here => MayDelete(st, f, FALSE)
OutputCorrect == pc[0] \in {"save", "clean", "done"} => col = Whole
Finished == Done => out = "full" /\ col = Whole /\ \A f \in AllR : ~ tmp[f].here
NoDeadlock == Done \/ ENABLED Work
Completes == <>[]Done
Emit == (Done /\ crashes = 0) => PrintT(<< "S", R, sched >>)
=============================================================================
