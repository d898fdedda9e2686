------------------------------ MODULE RefusalModel ------------------------------
EXTENDS Refusal, TLC
VARIABLES t, m, top
Shapes == { <<7>>, <<1>>, <<8>>, <<7, 1>>, <<1, 7>>, <<7, 7>>, <<14>> }
Tops == {0, 13000, 9999000, 9999999, 10000000, 10001000, 2000000000}
Init == t \in Shapes /\ m = <<0>> /\ top = -1
Give == m = <<0>> /\ m' \in Shapes /\ top' \in Tops /\ UNCHANGED t
\* the caller corrects the shape, or the units
Fix == m # <<0>> /\ m # t /\ m' = t /\ UNCHANGED << t, top >>
Units == m = t /\ top < SmallMass /\ top' = 2000000000 /\ UNCHANGED << t, m >>
Next == Give \/ Fix \/ Units
Spec == Init /\ [][Next]_<< t, m, top >>
Given == m # <<0>>
\* nothing in between, and shapes come first
Symmetric == Given => (Fit(t, m, top) = "refuse" <=> Fit(m, t, top) = "refuse")
Broadcastable == Given => (t # m => Fit(t, m, top) = "refuse")
Scales == Given /\ Fit(t, m, top) = "accept" => \A q \in Tops : q >= top => Fit(t, m, q) = "accept"
Corrected == [][ Fix => Fit(t', m', top') # "refuse" ]_<< t, m, top >>
Emit == Given => PrintT(<< "F", t, m, top >>)
=================================================================================
