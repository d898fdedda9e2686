----------------------------- MODULE LoadersTrace -----------------------------
(* "row"   kind, lgh, raw, out: one stored and one delivered history              *)
(* "rows"  ids delivered and expected, in order                                   *)
(* "times" t delivered, w: ages by the cosmology, today: age at redshift zero      *)
(* "chunk" n, k, c and the rows delivered (by number)                              *)
EXTENDS Loaders, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Sorted(n, k, c) == [ i \in 1..Cardinality(ChunkRows(n, k, c)) |-> ChunkLo(n, k, c) + i - 1 ]
MyClauses(s, e) ==
  CASE e.ev = "row" -> CLAUSE("cumulative-and-units", RowOK(e.kind, e.lgh, e.raw, e.out))
                  \cup CLAUSE("never-decreases", e.kind = "raw" \/ NonDecreasing(e.out))
    [] e.ev = "rows" -> CLAUSE("identifiers", e.ids = e.want)
    [] e.ev = "times" -> CLAUSE("times", TimesOK(e.t, e.w)) \cup CLAUSE("ends-today", Near(e.t[Len(e.t)], e.today, 300 + e.today \div 500))
                    \cup CLAUSE("one-column-per-time", e.ncol = Len(e.t))
    [] e.ev = "chunk" -> CLAUSE("chunk-rows", e.rows = Sorted(e.n, e.k, e.c))
    [] e.ev = "same" -> CLAUSE(e.clause, e.a = e.b)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
