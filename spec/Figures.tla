-------------------------------- MODULE Figures --------------------------------
(* The diagnostic figures of a calibrated population model.  A catalogue of     *)
(* tabulated bins is a sequence of rows [lgm, t, ...].  A history figure shows,  *)
(* for each of three declared masses, the tabulated bin that is nearest in mass  *)
(* among those of the figure's epoch, with the model's prediction for that same  *)
(* bin.  A residual figure has one panel per declared time; in it each of the    *)
(* fifteen declared masses shows model minus table of the bin nearest in time    *)
(* plus mass.                                                                    *)
EXTENDS Fix, FiniteSets
Pops == {"cens", "sats"}
Epochs == {"z0", "z2"}
Labels(pop, epoch) == IF pop = "cens" \/ epoch = "z2" THEN <<11250000, 12750000, 14250000>> ELSE <<11250000, 12250000, 13500000>>
InEpoch(epoch, t) == IF epoch = "z0" THEN t > 13500000 ELSE Abs(t - 3000000) < 500000
Eligible(rows, epoch) == { i \in 1..Len(rows) : InEpoch(epoch, rows[i].t) }
\* all rows at the smallest distance (2: rounding of the recording)
Closest(S, d(_)) == { i \in S : \A j \in S : d(i) <= d(j) + 2 }
NearestMass(rows, S, m) == Closest(S, LAMBDA i : Abs(rows[i].lgm - m))
Panels == <<4000000, 7000000, 10000000, 13000000>>
NMASS == 15
TopMass(pop) == IF pop = "cens" THEN 14500000 ELSE 13500000
PanelMass(pop, k) == 11000000 + ((TopMass(pop) - 11000000) * (k - 1)) \div (NMASS - 1)
NearestBin(rows, t, m) == Closest(1..Len(rows), LAMBDA i : Abs(rows[i].t - t) + Abs(rows[i].lgm - m))
\* what a history figure shows: for each label the bins it may come from
Shown(rows, pop, epoch) == [ k \in 1..3 |-> NearestMass(rows, Eligible(rows, epoch), Labels(pop, epoch)[k]) ]
ShownInPanel(rows, pop, t) == [ k \in 1..NMASS |-> NearestBin(rows, t, PanelMass(pop, k)) ]
===============================================================================
