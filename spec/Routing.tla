------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* Named parameters: a full set is a map from names to values; components   *)
(* see the restriction of that map to their own names; overriding and       *)
(* excluding act purely by name.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, PopTables
\* assignment given as a sequence of (name, value) pairs with distinct names
Override(full, seq) ==
  [n \in DOMAIN full |-> IF \E i \in 1..Len(seq) : seq[i][1] = n
                         THEN seq[CHOOSE i \in 1..Len(seq) : seq[i][1] = n][2] ELSE full[n]]
View(full, names) == [n \in names |-> full[n]]
Exclude(full, ex) == View(full, DOMAIN full \ ex)

(* Which predictions a parameter may influence.  A prediction is a triple     *)
(* <<kind, family, quantity>>: kind "cen"/"sat", family "early"/"late"/"both",*)
(* quantity "tp" (generated peak time), the four scattered halo parameters,   *)
(* "fec" (early fraction), "mom" (moments of a bin; both families).           *)
Kinds(n) == CASE Owner[n] \in {"tpc", "m0"} -> {"cen"} [] Owner[n] \in {"tps", "m0s"} -> {"sat"} [] OTHER -> {"cen", "sat"}
Quantities(n) == CASE Owner[n] \in {"tpc", "tps"} -> {"tp"}
                   [] Owner[n] \in {"m0", "m0s"} -> {"logm0"}
                   [] Owner[n] = "tc" -> {"logtc"}
                   [] Owner[n] = "ei" -> {"early_index"}
                   [] Owner[n] = "li" -> {"late_index", "early_index"}   \* early index is bounded below by late
                   [] Owner[n] = "fec" -> {"fec"}
                   [] OTHER -> {"logm0", "logtc", "early_index", "late_index"}
MayInfluence(n, x) ==
  /\ x[1] \in Kinds(n)
  /\ x[3] = "mom" \/
     /\ x[3] \in Quantities(n)
     /\ x[2] = "both" \/ Family[n] = "both" \/ x[2] = Family[n]
=============================================================================
