------------------------------- MODULE Unchunk -------------------------------
(***************************************************************************)
(* Collation of chunk files into one file per subvolume, and deletion of    *)
(* the chunk files.  A disk is the set of readable files with their rows;   *)
(* a row is known by its content.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
ToSet(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* every original row is in a file of the disk
NoLoss(rows, files) == \A x \in ToSet(rows) : \E i \in 1..Len(files) : x \in ToSet(files[i])
\* chunk file f of subvolume v may go when the collated file of v was completed
MayDelete(complete, owner, f) == f \in DOMAIN owner /\ owner[f] \in complete
=============================================================================
