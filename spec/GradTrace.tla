------------------------------ MODULE GradTrace ------------------------------
(* "value" a, b, t: loss alone and loss supplied with the gradient             *)
(* "grad"  g, d1, d2 (in units of the largest entry), tol                      *)
(* "names" got, want: the gradient's entries and the parameters                *)
(* "finite" xs      "agree" a, b, t: gradients of the same loss, two ways      *)
(* "nonneg" got                                                                *)
EXTENDS Grad, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MyClauses(s, e) ==
  CASE e.ev = "value" -> CLAUSE("value-of-the-loss", Near(e.a, e.b, e.t))
    [] e.ev = "grad" -> CLAUSE("slope-of-the-loss", Slopes(e.g, e.d1, e.d2, e.tol))
    [] e.ev = "names" -> CLAUSE("one-entry-per-parameter-in-order", SameFields(e.got, e.want))
    [] e.ev = "finite" -> CLAUSE("finite", AllFinite(e.xs))
    [] e.ev = "agree" -> CLAUSE("same-gradient-both-ways", Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.t))
    [] e.ev = "nonneg" -> CLAUSE("non-negative", Finite(e.got) /\ e.got >= 0)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
