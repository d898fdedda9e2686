----------------------------- MODULE ScatterTrace -----------------------------
(* "job" n: items along the axis, size R; parts: items of every rank's share     *)
(*       (-1: an item that is not of the original); whole: the item hashes match; *)
(*       tabs: table hashes by rank, tab: the root's; done, ranks that finished   *)
EXTENDS Scatter, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MyClauses(s, e) ==
  CASE e.ev = "job" -> CLAUSE("every-rank-finishes", e.done = e.size)
                  \cup (IF e.done # e.size THEN {} ELSE
                        CLAUSE("nothing-lost-or-reordered", Flat(e.parts) = Whole(e.n))
                   \cup CLAUSE("balanced", Balanced([ i \in 1..Len(e.parts) |-> Len(e.parts[i]) ]))
                   \cup CLAUSE("shape-and-type", \A i \in 1..Len(e.kinds) : e.kinds[i] = e.kind)
                   \cup CLAUSE("time-table", \A i \in 1..Len(e.tabs) : e.tabs[i] = e.tab)
                   \cup CLAUSE("no-message-left", e.left = 0))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
