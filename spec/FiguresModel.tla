------------------------------ MODULE FiguresModel ------------------------------
(* All small catalogues on a lattice of masses and times, built row by row.       *)
EXTENDS Figures, TLC
CONSTANTS MaxRows
VARIABLES rows
LMs == {11000000, 11750000, 12250000, 13000000, 14250000}
Ts == {2600000, 3400000, 5500000, 8500000, 13400000, 13790000}
Init == rows = <<>>
Has(m, t) == \E i \in 1..Len(rows) : rows[i].lgm = m /\ rows[i].t = t
Next == Len(rows) < MaxRows /\ \E m \in LMs, t \in Ts : ~Has(m, t) /\ rows' = Append(rows, [lgm |-> m, t |-> t])
Spec == Init /\ [][Next]_rows
\* a figure shows bins of its epoch only, whenever there is one
OfEpoch == \A p \in Pops, e \in Epochs, k \in 1..3 :
             LET S == Shown(rows, p, e)[k] IN S \subseteq Eligible(rows, e) /\ (Eligible(rows, e) # {} => S # {})
\* nothing of the epoch is nearer than what is shown; an exact bin is shown alone
NoNearer == \A p \in Pops, e \in Epochs, k \in 1..3 :
              \A i \in Shown(rows, p, e)[k], j \in Eligible(rows, e) : Abs(rows[i].lgm - Labels(p, e)[k]) <= Abs(rows[j].lgm - Labels(p, e)[k])
\* the order in which bins are tabulated does not matter
Rev == [ i \in 1..Len(rows) |-> rows[Len(rows) + 1 - i] ]
OrderFree == \A p \in Pops, e \in Epochs, k \in 1..3 :
              { rows[i] : i \in Shown(rows, p, e)[k] } = { Rev[i] : i \in Shown(Rev, p, e)[k] }
\* every panel shows something for every mass, and higher masses do not show lower bins at equal times
Full == rows # <<>> => \A p \in Pops, a \in 1..4, k \in 1..NMASS : ShownInPanel(rows, p, Panels[a])[k] # {}
Ordered == rows # <<>> => \A p \in Pops, a \in 1..4, k \in 1..NMASS - 1 :
             \A i \in ShownInPanel(rows, p, Panels[a])[k], j \in ShownInPanel(rows, p, Panels[a])[k + 1] : rows[i].t = rows[j].t => rows[i].lgm <= rows[j].lgm + 2
\* a new bin replaces what was shown only by being at least as near
Stable == [][ \A p \in Pops, e \in Epochs, k \in 1..3 :
               \A i \in Shown(rows', p, e)[k] : i \in Shown(rows, p, e)[k] \/ i = Len(rows') ]_rows
Emit == Len(rows) = MaxRows => PrintT(<< "B", [ i \in 1..Len(rows) |-> << rows[i].lgm \div 10000, rows[i].t \div 10000 >> ] >>)
===============================================================================
