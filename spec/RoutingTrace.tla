---------------------------- MODULE RoutingTrace ----------------------------
(* Events, all values integers (unique markers):                              *)
(*  "full"  names, vals: the caller's full set becomes the state              *)
(*  "view"  owner, names, vals: what a component was handed                   *)
(*  "override" names, vals (given, in this order); onames, ovals: the result  *)
(*  "exclude"  ex (as listed); onames, ovals: the varied set (order kept)     *)
(*  "influence" p, changed: predictions that changed when p alone changed     *)
(*  "reach"  p, changed over all bases (must not be empty)                    *)
EXTENDS Routing, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Map(ns, vs) == [n \in {ns[i] : i \in 1..Len(ns)} |-> vs[CHOOSE i \in 1..Len(ns) : ns[i] = n]]
Pairs(ns, vs) == [i \in 1..Len(ns) |-> <<ns[i], vs[i]>>]
Drop(s, ex) == SelectSeq(s, LAMBDA n : \A j \in 1..Len(ex) : ex[j] # n)
MyClauses(s, e) ==
  CASE e.ev = "full" -> CLAUSE("names", {e.names[i] : i \in 1..Len(e.names)} = CompositeNames)
    [] e.ev = "view" ->
        CLAUSE("component-names", {e.names[i] : i \in 1..Len(e.names)} = {n \in CompositeNames : Owner[n] = e.owner})
        \cup CLAUSE("delivered-by-name", \A i \in 1..Len(e.names) : e.names[i] \in DOMAIN s.full /\ e.vals[i] = s.full[e.names[i]])
    [] e.ev = "override" ->
        CLAUSE("override-by-name", Map(e.onames, e.ovals) = Override(s.full, Pairs(e.names, e.vals))
                                   /\ Len(e.onames) = Cardinality(DOMAIN s.full))
    [] e.ev = "exclude" ->
        CLAUSE("exclude-by-name", Map(e.onames, e.ovals) = Exclude(s.full, {e.ex[i] : i \in 1..Len(e.ex)})
                                   /\ e.onames = Drop(s.order, e.ex))
    [] e.ev = "influence" ->
        CLAUSE("influences-foreign-prediction", \A i \in 1..Len(e.changed) : MayInfluence(e.p, e.changed[i]))
    [] e.ev = "reach" -> CLAUSE("reaches-no-prediction", e.changed # <<>>)
    [] e.ev = "raises" -> {"raises"}
MySt0 == [full |-> <<>>, order |-> <<>>]
MyStep(s, e) == IF e.ev = "full" THEN [full |-> Map(e.names, e.vals), order |-> e.names] ELSE s
=============================================================================
