---------------------------- MODULE HaloPopModel ----------------------------
(* The generator as a state machine.  A key is a path in the tree of splits;  *)
(* a draw on a key that was never used picks any value, a second draw on the  *)
(* same key repeats it.  Independence of the random choices is: every         *)
(* combination of values of all choices is reachable (checked at the end).    *)
EXTENDS HaloPop, TLC
CONSTANTS NHALO, SharedKeys              \* SharedKeys = TRUE: the broken design
Choices == {"tp", "cls", "early", "late"}
KeyOf(h, c) == IF c = "cls" THEN <<"class", h>>
               ELSE IF SharedKeys /\ c = "early" THEN <<"halo", h, "late">> ELSE <<"halo", h, c>>
VARIABLES drawn,                         \* key -> value, once drawn
          used,                          \* sequence of (halo, choice) already made
          val                            \* (halo, choice) -> value
vars == <<drawn, used, val>>
Init == drawn = <<>> /\ used = {} /\ val = <<>> /\ TLCSet(1, {})
Order == <<"tp", "early", "late", "cls">>
Draw(h, c) ==
  /\ <<h, c>> \notin used
  /\ \A i \in 1..4 : Order[i] = c => \A j \in 1..(i - 1) : <<h, Order[j]>> \in used
  /\ \A g \in 1..(h - 1) : \A d \in Choices : <<g, d>> \in used
  /\ used' = used \cup {<<h, c>>}
  /\ LET k == KeyOf(h, c) IN
     IF k \in DOMAIN drawn THEN drawn' = drawn /\ val' = (<<h, c>> :> drawn[k]) @@ val
     ELSE \E v \in {0, 1} : drawn' = (k :> v) @@ drawn /\ val' = (<<h, c>> :> v) @@ val
Next == \E h \in 1..NHALO, c \in Choices : Draw(h, c)
Spec == Init /\ [][Next]_vars
Done == used = (1..NHALO) \X Choices
\* two versions of each halo share its peak time; selection takes one version whole
Version(h, fam) == <<val[<<h, "tp">>], fam, val[<<h, fam>>]>>
Result(h) == IF val[<<h, "cls">>] = 1 THEN Version(h, "early") ELSE Version(h, "late")
WholeHalo == Done => \A h \in 1..NHALO :
   /\ Whole(Version(h, "early"), Version(h, "late"), Result(h), val[<<h, "cls">>] = 1)
   /\ Result(h)[1] = val[<<h, "tp">>]
NoKeyReuse == Cardinality(DOMAIN drawn) = Cardinality(used)
Collect == TLCSet(1, TLCGet(1) \cup (IF Done THEN {val} ELSE {}))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Independent == Cardinality(TLCGet(1)) = Pow2(4 * NHALO)
Inv == WholeHalo /\ NoKeyReuse /\ Collect
\* flag vectors for the selection function
Flags == [1..4 -> BOOLEAN]
=============================================================================
