-------------------------------- MODULE Refusal --------------------------------
(* What is refused and what is flagged.  Masses in thousandths of the unit in    *)
(* which they are given (capped), shapes as sequences.                           *)
EXTENDS Integers, Sequences
SmallMass == 10000000
\* a fit: times and masses belong together; masses that look like logarithms are flagged
Fit(shapeT, shapeM, top) == IF shapeT # shapeM THEN "refuse" ELSE IF top < SmallMass THEN "warn" ELSE "accept"
\* stored TNG histories: the largest stored logarithm (in 1e-6), h = 0.6774
TngLimit == 4830840
Tng(toplog) == IF toplog <= TngLimit THEN "refuse" ELSE "accept"
===============================================================================
