----------------------------- MODULE OutlineTrace -----------------------------
(* "line"   one line of output: withid, vals, toks, target (for the point count) *)
(* "parse"  toks of a line without identifier, vals parsed from it, fields        *)
(* "file"   withid, columns present, ok                                            *)
(* "column" name, toks of that column in row order, vals read back from the file   *)
(* "header" withid, names listed by the header                                     *)
EXTENDS Outline, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
ToSt(n) == { n[j] : j \in 1..Len(n) }
MyClauses(s, e) ==
  CASE e.ev = "line" -> CLAUSE("line-holds-the-results", LineOK(e.withid, e.vals, e.toks))
                   \cup CLAUSE("one-line", e.nlines = 1)
                   \cup CLAUSE("point-count", e.npts = NonTrivial(e.target))
    [] e.ev = "parse" -> CLAUSE("parse-inverts", e.fields = Names(FALSE) /\ Len(e.vals) = 8 /\
                                \A j \in 1..8 : ReadOK(Names(FALSE)[j], e.toks[j], e.vals[j]))
    [] e.ev = "file" -> CLAUSE("columns", ToSt(e.names) = ToSt(Names(e.withid)) /\ Len(e.names) = Len(Names(e.withid)))
    [] e.ev = "column" -> CLAUSE("column-kept", ColumnOK(e.name, e.toks, e.vals))
    [] e.ev = "header" -> CLAUSE("header", e.names = Names(e.withid))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
