---------------------------- MODULE PopTargetsTrace ----------------------------
(* "bins" t (time index), nt, nm, t0ok, tab (snapshot times), sub: halos per        *)
(*        subvolume, cens / sats: per mass bin the rows found as [sv, i]             *)
(* "names" bins: the (lgm, t) of the files found (hundredths), nt, nm                *)
(* "files" saved: tables were final before the first deletion; left: intermediate    *)
(*        files left; others: unrelated files unchanged; ok: the job ended well      *)
(* "moments" lm, tp, times, lgm, tobs, rescaled, mean, std, frac                      *)
(* "tabled" bins (lgm, t, n), nmin, found                                            *)
(* "loaded" bins, tmin, mmax, nmin, found                                            *)
(* "draw" n (rows of the bin), want, ids (0: no such row), nsamp, lgm, ref, lm, res   *)
EXTENDS PopTargets, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Idx(f, s) == SelectSeq(f, LAMBDA r : r.sv = s)
RowsOK(e, found, m, k, cen) ==
  LET n == Len(e.sub)
  IN  /\ \A j \in 1..Len(found) : found[j].sv \in 1..n /\ found[j].i > 0
      /\ \A s \in 1..n : LET g == Idx(found, s) IN Fz([ j \in 1..Len(g) |-> g[j].i ]) = Members(e.sub[s], m, k, cen, CAP)
BinsOK(e, rows, cen) == LET t == TObs(e.nt, e.t)
                            k == Nearest(t, e.tab)
                        IN  \A i \in 1..e.nm : RowsOK(e, rows[i], BinMass(t, e.nm, i), k, cen)
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], tol)
Distinct(q) == Cardinality({ q[i] : i \in 1..Len(q) }) = Len(q)
MyClauses(s, e) ==
  CASE e.ev = "bins" -> CLAUSE("central-bins", BinsOK(e, e.cens, TRUE)) \cup CLAUSE("satellite-bins", BinsOK(e, e.sats, FALSE))
    [] e.ev = "names" -> CLAUSE("bin-names", \A i \in 1..Len(e.bins) : \E a \in 1..e.nt, m \in 1..e.nm :
                           /\ Near(e.bins[i].t * 10000, TObs(e.nt, a), 5100)
                           /\ Near(e.bins[i].lgm * 10000, BinMass(TObs(e.nt, a), e.nm, m), 5100))
    [] e.ev = "files" -> CLAUSE("completes", e.ok) \cup CLAUSE("saved-before-deleted", e.saved) \cup CLAUSE("intermediate-removed", e.left = 0)
                         \cup CLAUSE("others-untouched", e.others)
    [] e.ev = "moments" -> LET A == IF e.rescaled THEN Ending(e.lm, e.lgm) ELSE e.lm
                               n == Len(e.times)
                           IN  CLAUSE("table-times", \A i \in 1..n : Near(e.times[i], Lin(500000, e.tobs, n, i), 3))
                               \cup CLAUSE("mean-history", Len(e.mean) = n /\ \A i \in 1..n : Near(e.mean[i], Mean(ColOf(A, i)), 25))
                               \cup CLAUSE("scatter", Len(e.std) = n /\ \A i \in 1..n : LET q == Std(ColOf(A, i)) IN Near(e.std[i], q, 25 + (IF q < 20000 THEN 1000 ELSE 0)))
                               \cup CLAUSE("fraction-peaked", Len(e.frac) = n /\ \A i \in 1..n : Near(e.frac[i], FracBefore(e.tp, e.times[i]), 3))
    [] e.ev = "tabled" -> CLAUSE("enough-halos", { e.found[i] : i \in 1..Len(e.found) } = { <<e.bins[i].lgm, e.bins[i].t>> : i \in { j \in 1..Len(e.bins) : e.bins[j].n > e.nmin } }
                                                   /\ Distinct(e.found))
    [] e.ev = "loaded" -> LET w == SelectBins(e.bins, e.tmin, e.mmax, e.nmin)
                          IN  CLAUSE("limits", e.found = Fz([ i \in 1..Len(w) |-> [lgm |-> w[i].lgm, t |-> w[i].t, n |-> w[i].n] ]))
    [] e.ev = "draw" -> CLAUSE("distinct-samples", Len(e.ids) = e.want /\ Distinct(e.ids))
                        \cup CLAUSE("samples-of-the-bin", \A i \in 1..Len(e.ids) : e.ids[i] \in 1..e.n)
                        \cup CLAUSE("whole-bin-is-sampled", e.want < 100 \/ \A q \in 0..5 :
                                \E i \in 1..Len(e.ids) : e.ids[i] > (q * e.n) \div 6 /\ e.ids[i] <= ((q + 1) * e.n) \div 6)
                        \cup CLAUSE("sample-count", e.nsamp = e.n)
                        \cup CLAUSE("sample-histories", Len(e.lm) = e.want /\ \A h \in 1..Len(e.lm) : SeqNear(e.lm[h], e.ref[h], 4000))
                        \cup CLAUSE("ends-at-bin-mass", Len(e.res) = e.want /\ \A h \in 1..Len(e.res) : Near(e.res[h][Len(e.res[h])], e.lgm, 10))
                        \cup CLAUSE("shift-only", LET w == Ending(e.lm, e.lgm) IN \A h \in 1..Len(e.res) : SeqNear(e.res[h], w[h], 10))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
