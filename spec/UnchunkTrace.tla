----------------------------- MODULE UnchunkTrace -----------------------------
(* "start" owner: sequence of [f, v] chunk files of the request; cols: sequence of   *)
(*         [f, v] collated files; rows: all rows of all chunk files                  *)
(* "hc" f: a file written is complete | "rm" f | "escape"                            *)
(* "disk" files: rows of every readable file on disk at a crash point                 *)
(* "done" v, found: rows and columns of the collated file, want: rows of the chunks   *)
(* "finish" ok, untouched                                                             *)
EXTENDS Unchunk, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Fun(q) == [ f \in { q[i].f : i \in 1..Len(q) } |-> q[CHOOSE i \in 1..Len(q) : q[i].f = f].v ]
MyClauses(s, e) ==
  CASE e.ev = "rm" -> CLAUSE("deleted-before-saved", MayDelete(s.complete, s.owner, e.f))
    [] e.ev = "escape" -> {"touches-other-files"}
    [] e.ev = "disk" -> CLAUSE("crash-loses-rows", NoLoss(s.rows, e.files))
    [] e.ev = "done" -> CLAUSE("rows-in-chunk-order", e.found = Flat(e.want)) \cup CLAUSE("columns", e.cols = e.wcols)
    [] e.ev = "finish" -> CLAUSE("completes", e.ok) \cup CLAUSE("other-files-untouched", e.untouched)
    [] OTHER -> {}
MySt0 == [ owner |-> <<>>, col |-> <<>>, complete |-> {}, rows |-> <<>> ]
MyStep(s, e) ==
  CASE e.ev = "start" -> [ owner |-> Fun(e.owner), col |-> Fun(e.cols), complete |-> {}, rows |-> e.rows ]
    [] e.ev = "hw" -> IF e.f \in DOMAIN s.col THEN [ s EXCEPT !.complete = @ \ {s.col[e.f]} ] ELSE s
    [] e.ev = "hc" -> IF e.f \in DOMAIN s.col THEN [ s EXCEPT !.complete = @ \cup {s.col[e.f]} ] ELSE s
    [] e.ev = "ren" -> IF e.g \in DOMAIN s.col THEN [ s EXCEPT !.complete = @ \cup {s.col[e.g]} ] ELSE s
    [] OTHER -> s
=============================================================================
