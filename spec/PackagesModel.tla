----------------------------- MODULE PackagesModel -----------------------------
(* Interpreters with every set of optional packages, in which one feature after  *)
(* another is called.                                                            *)
EXTENDS Packages, TLC
CONSTANT MaxCalls
VARIABLES S, done, last
vars == << S, done, last >>
Init == S \in SUBSET Optional /\ done = {} /\ last = "none"
Call(f) == f \notin done /\ Cardinality(done) < MaxCalls /\ done' = done \cup {f} /\ last' = (IF Works(S, f) THEN "works" ELSE "reports") /\ UNCHANGED S
\* another interpreter, one package more
Install(p) == p \notin S /\ S' = S \cup {p} /\ done' = {} /\ last' = "none"
Next == (\E f \in Features : Call(f)) \/ (done # {} /\ \E p \in Optional : Install(p))
Spec == Init /\ [][Next]_vars
\* another package never takes a feature away
Monotone == \A f \in Features, p \in Optional : Works(S, f) => Works(S \cup {p}, f)
\* the core needs nothing optional
Core == \A f \in {"evaluate", "fit", "population"} : Works(S, f)
\* what is reported can be named
Nameable == \A f \in Features : ~ Works(S, f) => Missing(S, f) # {} /\ Missing(S, f) \cap S = {}
\* one missing package takes away only the features that need it
OnlyOwn == \A p \in Optional, f \in Features : (p \in S /\ Works(S, f) /\ ~ Works(S \ {p}, f)) => p \in Needs[f]
\* every optional package is there for something
Useful == \A p \in Optional : \E f \in Features : p \in Needs[f]
\* the outcome of a call does not depend on the calls before it
NoMemory == [][ \A f \in Features : (f \in done' \ done) => last' = (IF Works(S, f) THEN "works" ELSE "reports") ]_vars
Emit == done = {} => PrintT(<< "S", S >>)
===============================================================================
