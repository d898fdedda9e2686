---------------------------- MODULE PurityTrace ----------------------------
(* Events: "proc"  a new process starts (nothing is held any more)            *)
(*  "refill" the caller overwrote its argument object in place (results that  *)
(*         alias the caller's own arrays may change then: held re-recorded)   *)
(*  "call" op, args: hash of argument contents before, after: hash after,    *)
(*         defaults: hash of all package constants, res: hash of the result, *)
(*         held: current hashes of every result returned and still held      *)
EXTENDS Fix, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Key(e) == <<e.op, e.args>>
MyClauses(s, e) ==
  CASE e.ev = "call" ->
        CLAUSE("arguments-unchanged", e.after = e.args)
        \cup CLAUSE("defaults-unchanged", s.defaults = -1 \/ e.defaults = s.defaults)
        \cup CLAUSE("earlier-results-unchanged", e.held = s.held)
        \cup CLAUSE("same-arguments-same-result", Key(e) \notin DOMAIN s.memo \/ s.memo[Key(e)] = e.res)
    [] e.ev = "raises" -> {"raises"}
    [] OTHER -> {}
MySt0 == [memo |-> <<>>, held |-> <<>>, defaults |-> -1]
MyStep(s, e) ==
  CASE e.ev = "proc" -> [s EXCEPT !.held = <<>>, !.defaults = e.defaults]
    [] e.ev = "refill" -> [s EXCEPT !.held = e.held]
    [] e.ev = "call" ->
         [memo |-> IF Key(e) \in DOMAIN s.memo THEN s.memo ELSE (Key(e) :> e.res) @@ s.memo,
          held |-> IF e.drop > 0 THEN Append(SubSeq(e.held, e.drop + 1, Len(e.held)), e.res) ELSE Append(e.held, e.res),
          defaults |-> IF s.defaults = -1 THEN e.defaults ELSE s.defaults]
    [] OTHER -> s
=============================================================================
