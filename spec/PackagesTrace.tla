----------------------------- MODULE PackagesTrace -----------------------------
(* "import" m, have: Seq of packages, ok, names: packages named in the report     *)
(* "call"   f, have, ok, imported (its module could be imported), names, fp, ref  *)
(*          (result, and that of an interpreter with everything), left: files     *)
(* "fit"    t, m (shapes), top, out; "tng" top, out (refuse / warn / accept), fitted *)
EXTENDS Packages, TraceKit
R == INSTANCE Refusal
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MyClauses(s, e) ==
  CASE e.ev = "import" ->
         LET S == ToSet(e.have) IN
         CLAUSE("imports-without-optional-packages", ImportWorks(S, e.m) => e.ok)
         \cup CLAUSE("refused-import-names-package", ~ e.ok => ToSet(e.names) \cap (Hard(e.m) \ S) # {})
    [] e.ev = "call" ->
         LET S == ToSet(e.have) IN
         CLAUSE("works-with-what-it-needs", Works(S, e.f) => e.ok)
         \cup CLAUSE("reports-what-is-missing", ~ Works(S, e.f) => ~ e.ok)
         \cup CLAUSE("names-what-is-missing", (~ Works(S, e.f) /\ ~ e.ok /\ e.f \in Named) => ToSet(e.names) \cap Missing(S, e.f) # {})
         \cup CLAUSE("same-result", (Works(S, e.f) /\ e.ok) => e.fp = e.ref)
         \cup CLAUSE("leaves-nothing", ~ e.ok => e.left = 0)
    [] e.ev = "fit" -> CLAUSE("fit-input", e.out = R!Fit(e.t, e.m, e.top))
    [] e.ev = "tng" -> CLAUSE("tng-input", e.out = R!Tng(e.top))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
