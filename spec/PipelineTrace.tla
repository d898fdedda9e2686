---------------------------- MODULE PipelineTrace ----------------------------
(* Events of a job of the real scripts, in the order in which they happened:      *)
(* "start" outs | "w" f | "r" f, busy | "rm" f, busy | "hw" f | "hc" f | "ren" f, g *)
(* | "escape" | "finish" ok, leftovers, touched                                     *)
(* | "unit" n expected rows, rows found (one tuple of columns per row), ids         *)
(* | "fit" arguments of a fit (t, m, cuts) and those expected (wt, wm, wcuts)       *)
(* | "copy" an array written beside the fits: found and expected                    *)
EXTENDS Pipeline, TraceKit
FX == INSTANCE Fix
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ FX!Near(a[i], b[i], tol)
MyClauses(s, e) ==
  CASE e.ev = "w" -> CLAUSE("written-while-collated", MayWrite(s, e.f))
    [] e.ev = "r" -> CLAUSE("read-before-finished", e.f \in s.outs \/ MayRead(s, e.f, e.busy))
    [] e.ev = "rm" -> CLAUSE("deleted-before-saved", MayDelete(s, e.f, e.busy))
    [] e.ev = "escape" -> {"touches-other-files"}
    [] e.ev = "finish" -> CLAUSE("every-rank-finishes", e.ok)
                     \cup CLAUSE("no-temporary-files-left", e.ok => e.leftovers = <<>>)
                     \cup CLAUSE("other-files-untouched", ~ e.touched)
    [] e.ev = "unit" -> CLAUSE("output-written", e.found)
                   \cup (IF ~ e.found THEN {} ELSE
                         CLAUSE("one-row-per-halo", Len(e.rows) = e.n)
                    \cup CLAUSE("row-is-the-fit", \A i \in 1..Len(e.rows) : e.rows[i] = FitRow(e.rows[i][1]))
                    \cup CLAUSE("one-fit-per-row", Cardinality({ e.rows[i][1] : i \in 1..Len(e.rows) }) = Len(e.rows))
                    \cup CLAUSE("identifiers", e.ids = e.wids))
    [] e.ev = "fit" -> CLAUSE("right-halo-in-order", SeqNear(e.m, e.wm, 12))
                  \cup CLAUSE("right-times", SeqNear(e.t, e.wt, 30000))
                  \cup CLAUSE("right-cuts", e.cuts = e.wcuts)
    [] e.ev = "copy" -> CLAUSE("histories-written", SeqNear(e.a, e.b, 12))
    [] e.ev = "resume" -> {}
    [] OTHER -> {}
MySt0 == Idle
MyStep(s, e) ==
  CASE e.ev = "start" -> [ Idle EXCEPT !.outs = ToSet(e.outs) ]
    [] e.ev = "w" -> AfterWrite(s, e.f)
    [] e.ev = "r" -> AfterRead(s, e.f)
    [] e.ev = "rm" -> AfterDelete(s, e.f)
    [] e.ev = "hc" -> AfterOutput(s)
    [] e.ev = "ren" -> IF e.f \in s.written THEN AfterWrite(AfterDelete(s, e.f), e.g) ELSE s
    [] OTHER -> s
=============================================================================
