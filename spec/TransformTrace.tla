--------------------------- MODULE TransformTrace ---------------------------
(* Events: "bnd"  bounded values p of unbounded u in a family (lo, hi, floor)  *)
(*  "raise" unbounded value i was raised: p before, q after, strict            *)
(*  "lower limits" "sat" side: p at extreme u equals its declared limit        *)
(*  "rt"    values a, round-tripped b, tolerance t per entry                   *)
(*  "decl"  names with the limits the code declares for them; "names" composite *)
(*  "same"  two lists that must be equal within t (defaults, field names)      *)
EXTENDS Transform, PopTables, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MyClauses(s, e) ==
  CASE e.ev = "bnd" -> CLAUSE("in-bounds", InBounds(e.floor, e.lo, e.hi, e.p))
    [] e.ev = "raise" ->
         CLAUSE("own-parameter-only", OwnOnly(e.floor, e.i, e.p, e.q))
         \cup CLAUSE("increases", Finite(e.q[e.i]) /\ Finite(e.p[e.i]) /\
                (IF e.strict THEN e.q[e.i] > e.p[e.i] ELSE e.q[e.i] >= e.p[e.i] - 2))
    [] e.ev = "sat" -> CLAUSE("declared-limit-reached",
         \A i \in 1..Len(e.p) : Near(e.p[i], e.lim[i], e.tol[i]))
    [] e.ev = "rt" -> CLAUSE("round-trip", Len(e.a) = Len(e.b) /\
         \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.t[i]))
    [] e.ev = "same" -> CLAUSE(e.what, e.a = e.b)
    [] e.ev = "decl" -> CLAUSE("declared-limits", \A i \in 1..Len(e.names) :
         e.names[i] \in DOMAIN PopBounds /\ PopBounds[e.names[i]] = <<e.lo[i], e.hi[i]>>)
    [] e.ev = "names" -> CLAUSE("composite-names", {e.names[i] : i \in 1..Len(e.names)} = CompositeNames
                                                   /\ Len(e.names) = Cardinality(CompositeNames))
    [] e.ev = "raises" -> {"raises"}
MySt0 == 0
MyStep(s, e) == 0
=============================================================================
