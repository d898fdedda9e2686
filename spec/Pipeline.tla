------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The file protocol of a fitting job.  st is the state of one job:        *)
(*   written  temporary files opened for writing by this job               *)
(*   readset  temporary files read by the collator                          *)
(*   saved    temporary files whose rows are in a complete output           *)
(*   outs     names of the outputs of the job                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
ToSet(q) == { q[i] : i \in 1..Len(q) }
Idle == [ written |-> {}, readset |-> {}, saved |-> {}, outs |-> {}, inputs |-> {} ]
\* a temporary file may be read when this job wrote it and nobody is writing it
MayRead(s, f, busy) == f \in s.written /\ ~ busy
MayWrite(s, f) == f \notin (s.readset \ s.saved)
\* only temporary files may be deleted, those of this job only once their rows are saved
MayDelete(s, f, busy) == f \notin s.outs /\ (f \in s.written => f \in s.saved) /\ ~ busy
AfterWrite(s, f) == [ s EXCEPT !.written = @ \cup {f}, !.readset = @ \ {f}, !.saved = @ \ {f} ]
AfterRead(s, f) == [ s EXCEPT !.readset = @ \cup {f} ]
AfterDelete(s, f) == [ s EXCEPT !.written = @ \ {f} ]
AfterOutput(s) == [ s EXCEPT !.saved = @ \cup s.readset ]
\* halos of rank r of R (0-based) when n halos are split in order
Mn(a, b) == IF a < b THEN a ELSE b
Lo(n, R, r) == r * (n \div R) + Mn(r, n % R)
HalosOf(n, R, r) == [ i \in 1..(Lo(n, R, r + 1) - Lo(n, R, r)) |-> Lo(n, R, r) + i ]
\* the stand-in fit number c gives a row that is recognisable in every column
FitRow(c) == << c, 0 - c, 2 * c, 3 * c, 4 * c, 5 * c, c % 13, (c % 3) - 1 >>
=============================================================================
