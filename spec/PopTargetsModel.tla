--------------------------- MODULE PopTargetsModel ---------------------------
(* Small catalogues around a few overlapping bins, and the job's file protocol:  *)
(* one text file per subvolume and bin, collation, deletion, crash anywhere.      *)
EXTENDS PopTargets, TLC
CONSTANTS NH, NB, NSV, Cap
VARIABLES cat, sv, txt, tab, pc, b
vars == <<cat, sv, txt, tab, pc, b>>
Bin(i) == 11 * ONE + (i - 1) * 200000
Offs == {-300000, -150000, -149999, 50000, 149999, 150000, 500000}
Halo == [fit : BOOLEAN, lm : { 11 * ONE + o : o \in Offs }, cen : { <<TRUE, FALSE>>, <<FALSE, FALSE>> }]
NoTab == <<>>
Init == cat = <<>> /\ sv = 1 /\ txt = {} /\ tab = [ i \in 1..NB |-> [full |-> FALSE, rows |-> {}] ] /\ pc = "grow" /\ b = 1
Grow == pc = "grow" /\ Len(cat) < NH /\ \E h \in Halo : cat' = Append(cat, h) /\ UNCHANGED <<sv, txt, tab, pc, b>>
Start == pc = "grow" /\ Len(cat) = NH /\ pc' = "write" /\ UNCHANGED <<cat, sv, txt, tab, b>>
\* the same catalogue in every subvolume; a row is (subvolume, halo, bin)
Rows(s, i) == LET m == Members(cat, Bin(i), 1, TRUE, Cap) IN { <<s, m[j], i>> : j \in 1..Len(m) }
Write == /\ pc = "write"
         /\ txt' = IF Rows(sv, b) = {} THEN txt ELSE txt \cup {[s |-> sv, i |-> b, rows |-> Rows(sv, b)]}
         /\ IF b < NB THEN b' = b + 1 /\ UNCHANGED <<sv, pc>>
            ELSE b' = 1 /\ IF sv < NSV THEN sv' = sv + 1 /\ UNCHANGED pc ELSE pc' = "collate" /\ UNCHANGED sv
         /\ UNCHANGED <<cat, tab>>
Collate == /\ pc = "collate"
           /\ tab' = [ tab EXCEPT ![b] = [full |-> TRUE, rows |-> UNION { f.rows : f \in { g \in txt : g.i = b } }] ]
           /\ IF b < NB THEN b' = b + 1 /\ UNCHANGED pc ELSE b' = 1 /\ pc' = "delete"
           /\ UNCHANGED <<cat, sv, txt>>
Delete == pc = "delete" /\ \E f \in txt : txt' = txt \ {f} /\ UNCHANGED <<cat, sv, tab, pc, b>>
Crash == pc \in {"write", "collate", "delete"} /\ pc' = "crashed" /\ UNCHANGED <<cat, sv, txt, tab, b>>
Next == Grow \/ Start \/ Write \/ Collate \/ Delete \/ Crash
Spec == Init /\ [][Next]_vars
Range(s) == { s[i] : i \in 1..Len(s) }
Rule == pc = "write" /\ sv = 1 /\ b = 1 => \A i \in 1..NB :
   LET c == Members(cat, Bin(i), 1, TRUE, Cap)
       a == Members(cat, Bin(i), 1, FALSE, Cap)
   IN  /\ Range(c) \cap Range(a) = {}
       /\ \A h \in Range(c) \cup Range(a) : cat[h].fit
       /\ Len(c) <= Cap /\ \A x, y \in 1..Len(c) : x < y => c[x] < c[y]
       /\ Members(cat, Bin(i), 2, TRUE, Cap) = <<>>
       /\ \A h \in 1..NH : (cat[h].fit /\ Abs(cat[h].lm - Bin(i)) < WIDTH /\ cat[h].cen[1] /\ h \notin Range(c)) => Len(c) = Cap
\* bins no further apart than twice the width leave no gap between the first and the last
NoGap == (pc = "write" /\ sv = 1 /\ b = 1 /\ Cap >= NH) => \A h \in 1..NH :
   (cat[h].fit /\ cat[h].lm > Bin(1) - WIDTH /\ cat[h].lm < Bin(NB) + WIDTH) =>
       \E i \in 1..NB : h \in Range(Members(cat, Bin(i), 1, cat[h].cen[1], Cap))
Written == { <<s, i>> \in (1..NSV) \X (1..NB) : s < sv \/ (s = sv /\ i < b) \/ pc \in {"collate", "delete"} }
OnDisk == UNION { f.rows : f \in txt } \cup UNION { tab[i].rows : i \in { j \in 1..NB : tab[j].full } }
RowsKept == pc \in {"write", "collate", "delete"} => \A w \in Written : Rows(w[1], w[2]) \subseteq OnDisk
Kept(q, p) == UNION { f.rows : f \in q } \cup UNION { p[i].rows : i \in { j \in 1..NB : p[j].full } }
NothingLost == [][ Kept(txt, tab) \subseteq Kept(txt', tab') ]_vars
===============================================================================
