------------------------------ MODULE EvalTrace ------------------------------
(* Events: ev = entry; b, t: ids of halos and times of the request; m[i][j],   *)
(* r[i][j] log mass and log10 rate returned; shape the returned shape; hs: the *)
(* set-up event "start" gives the numbers of halos and times of a new group.   *)
EXTENDS Fix, TraceKit
Unknown == NAN - 5
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Same(known, v, tol) == known = Unknown \/ (known = v) \/ Near(known, v, tol)
Expect(e) == IF e.kind = "single" THEN <<Len(e.t)>>
             ELSE IF e.kind = "pop" THEN <<Len(e.b), Len(e.t)>>
             ELSE IF e.kind = "obs" THEN <<Len(e.b)>>
             ELSE <<>>
\* a request pairs halo b[i] with time t[j] (all pairs), or with time t[i] ("obs")
Cell(e, i, j) == IF e.kind = "obs" THEN <<e.b[i], e.t[i]>> ELSE <<e.b[i], e.t[j]>>
Js(e) == IF e.kind = "obs" THEN 1..1 ELSE 1..Len(e.t)
MyClauses(s, e) ==
  IF e.ev = "start" THEN {}
  ELSE IF e.ev = "raises" THEN {"raises"}
  ELSE CLAUSE("shape", \A q \in 1..Len(e.shapes) : e.shapes[q] = Expect(e))
    \cup (IF \E q \in 1..Len(e.shapes) : e.shapes[q] # Expect(e) THEN {} ELSE
       CLAUSE("mass-agrees", \A i \in 1..Len(e.b) : \A j \in Js(e) :
           LET c == Cell(e, i, j) IN Same(s.m[c[1]][c[2]], e.m[i][j], 10))
       \cup CLAUSE("rate-agrees", e.r = <<>> \/ \A i \in 1..Len(e.b) : \A j \in Js(e) :
           LET c == Cell(e, i, j) IN Same(s.r[c[1]][c[2]], e.r[i][j], 60)))
Learn(tab, e, vals) ==
  [h \in 1..Len(tab) |-> [t \in 1..Len(tab[h]) |->
     IF tab[h][t] # Unknown THEN tab[h][t]
     ELSE LET P == {ij \in (1..Len(e.b)) \X Js(e) : Cell(e, ij[1], ij[2]) = <<h, t>>}
          IN  IF P = {} THEN Unknown ELSE LET ij == CHOOSE x \in P : TRUE IN vals[ij[1]][ij[2]]]]
MySt0 == [m |-> <<>>, r |-> <<>>]
MyStep(s, e) ==
  IF e.ev = "start" THEN LET tb == [h \in 1..e.nh |-> [t \in 1..e.nt |-> Unknown]] IN [m |-> tb, r |-> tb]
  ELSE IF e.ev = "raises" \/ \E q \in 1..Len(e.shapes) : e.shapes[q] # Expect(e) THEN s
  ELSE [m |-> IF e.learn THEN Learn(s.m, e, e.m) ELSE s.m,
        r |-> IF e.r = <<>> \/ ~e.learn THEN s.r ELSE Learn(s.r, e, e.r)]
=============================================================================
