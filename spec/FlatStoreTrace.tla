---------------------------- MODULE FlatStoreTrace ----------------------------
(* "create" the file of the following loads: cols: sequence of [k, rows] with rows *)
(*          as content hashes, empty content hash tells dtype and row shape          *)
(* "load"   all, keys, a, b and the result res: sequence of [k, rows]               *)
(* "tuple"  fields and content hashes written (w) and loaded (r)                    *)
(* "after"  did the file change, can it be opened for writing                       *)
EXTENDS FlatStore, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
NamesOf(c) == { c[i].k : i \in 1..Len(c) }
Fun(c) == [ k \in NamesOf(c) |-> c[CHOOSE i \in 1..Len(c) : c[i].k = k].rows ]
Kinds(c) == [ k \in NamesOf(c) |-> c[CHOOSE i \in 1..Len(c) : c[i].k = k].kind ]
MyClauses(s, e) ==
  CASE e.ev = "load" -> LET w == Load(Fun(s), e.all, e.keys, e.a, e.b) IN
                        CLAUSE("columns", NamesOf(e.res) = DOMAIN w)
                   \cup CLAUSE("rows", NamesOf(e.res) = DOMAIN w => Fun(e.res) = w)
                   \cup CLAUSE("types", \A k \in NamesOf(e.res) \cap DOMAIN w : Kinds(e.res)[k] = Kinds(s)[k])
    [] e.ev = "tuple" -> CLAUSE("field-order", e.rf = e.wf)
                    \cup CLAUSE("values", e.rv = e.wv)
    [] e.ev = "after" -> CLAUSE("file-unchanged", ~ e.changed) \cup CLAUSE("file-closed", ~ e.open)
    [] OTHER -> {}
MySt0 == <<>>
MyStep(s, e) == IF e.ev = "create" THEN e.cols ELSE s
=============================================================================
