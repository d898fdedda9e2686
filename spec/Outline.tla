------------------------------- MODULE Outline -------------------------------
(***************************************************************************)
(* The text and file formats of fit results.  A decimal number is          *)
(* [s |-> sign, hi |-> first six significant digits, lo |-> next six,       *)
(*  x |-> decimal exponent]; zero has hi = lo = 0.  Integers are digit      *)
(* strings, so identifiers of any size are exact.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
FloatNames == << "logm0", "logtc", "early_index", "late_index", "t_peak", "loss" >>
IntNames == << "n_points_per_fit", "fit_algo" >>
Names(withid) == IF withid THEN << "halo_id" >> \o FloatNames \o IntNames ELSE FloatNames \o IntNames
Kind(name) == IF name \in { FloatNames[i] : i \in 1..6 } THEN "f" ELSE "i"
Zero(d) == d.hi = 0
\* p is d rounded to six significant digits (either way at a tie)
RoundsTo(d, p) ==
  IF Zero(d) THEN p.hi = 0 /\ p.lo = 0
  ELSE /\ p.lo = 0 /\ p.s = d.s
       /\ LET up == IF d.hi = 999999 THEN p.hi = 100000 /\ p.x = d.x + 1 ELSE p.hi = d.hi + 1 /\ p.x = d.x
              dn == p.hi = d.hi /\ p.x = d.x
          IN  IF d.lo < 499999 THEN dn ELSE IF d.lo > 500001 THEN up ELSE dn \/ up
\* token of a line against the value it stands for
TokenOK(name, v, tok) ==
  IF Kind(name) = "f" THEN tok.k \in {"f", "i"} /\ RoundsTo(v.d, tok.d) ELSE tok.k = "i" /\ tok.t = v.t
LineOK(withid, vals, toks) ==
  LET n == Names(withid) IN
  Len(toks) = Len(n) /\ Len(vals) = Len(n) /\ \A j \in 1..Len(n) : TokenOK(n[j], vals[j], toks[j])
\* a stored or parsed value against the token it was read from
ReadOK(name, tok, v) == IF Kind(name) = "f" THEN RoundsTo(v.d, tok.d) ELSE v.t = tok.t
ColumnOK(name, toks, vals) == Len(vals) = Len(toks) /\ \A i \in 1..Len(toks) : ReadOK(name, toks[i], vals[i])
\* number of targets strictly below the last one
NonTrivial(t) == IF t = <<>> THEN 0 ELSE Cardinality({ i \in 1..Len(t) : t[i] < t[Len(t)] })
=============================================================================
