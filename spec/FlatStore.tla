------------------------------ MODULE FlatStore ------------------------------
(***************************************************************************)
(* A flat file is a function from column names to sequences of rows, at    *)
(* the top level or inside a group.  Loading selects columns and a row     *)
(* range with the usual half-open, possibly negative indices.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
END == 999                                   \* "to the end"
Norm(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE IF i > n THEN n ELSE i
Slice(s, a, b) ==
  LET n == Len(s)
      lo == Norm(a, n)
      hi == IF b = END THEN n ELSE Norm(b, n)
  IN  IF hi <= lo THEN <<>> ELSE SubSeq(s, lo + 1, hi)
ToSet(q) == { q[i] : i \in 1..Len(q) }
\* f: store (function); keys: requested names (<<>> with all = TRUE means every column)
Load(f, all, keys, a, b) == [ k \in (IF all THEN DOMAIN f ELSE ToSet(keys)) |-> Slice(f[k], a, b) ]
=============================================================================
