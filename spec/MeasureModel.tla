----------------------------- MODULE MeasureModel -----------------------------
(* Every small sample at one considered time, every trimming and cut: laws of    *)
(* the mask; each sample is printed as a request for the real code.               *)
EXTENDS Measure, TLC
CONSTANTS N, V, Probe
VARIABLES s
Init == s = <<>>
Next == Len(s) < N /\ \E v \in V : s' = Append(s, v)
Spec == Init /\ [][Next]_s
X == [ h \in 1..Len(s) |-> <<s[h], 0>> ]
Cuts == {1, 2, 3, 4, 6}
Ks == { k \in 0..1 : Len(s) - 2 * k >= 1 }
M(k, z) == { h \in 1..Len(s) : Mask(X, 1, k, z)[h] }
Ready == Len(s) >= 2
Monotone == Ready => \A k \in Ks, z, y \in Cuts : z < y => M(k, z) \subseteq M(k, y)
\* equal histories share their fate; reversing order or reflecting values changes nothing
Alike == Ready => \A k \in Ks, z \in Cuts : LET m == Mask(X, 1, k, z) IN \A i, j \in 1..Len(s) : s[i] = s[j] => m[i] = m[j]
R == [ h \in 1..Len(s) |-> <<-s[Len(s) + 1 - h], 0>> ]
Reflect == Ready => \A k \in Ks, z \in Cuts : \A h \in 1..Len(s) : Mask(X, 1, k, z)[h] = Mask(R, 1, k, z)[Len(s) + 1 - h]
\* untrimmed: someone is always within one deviation, and no more than a quarter beyond two
Cheb == Ready => LET far == { h \in 1..Len(s) : ~Mask(X, 1, 0, 4)[h] } IN (Lim(Trim(s, 0), 2) > 0) => 4 * Cardinality(far) <= Len(s) /\ M(0, 2) \cup { h \in 1..Len(s) : Edge(X, 1, 0, 2)[h] } # {}
LogLaws == \A x, y \in Probe : /\ Near(Log10(Mul(x, y)), Log10(x) + Log10(y), 6 + 2000000 \div (Min2(x, Min2(y, Mul(x, y))) + 1))
                               /\ x + 10 + x \div 100000 < y => Log10(x) < Log10(y)
Emit == Ready => PrintT(<<"B", s>>)
===============================================================================
