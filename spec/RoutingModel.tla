---------------------------- MODULE RoutingModel ----------------------------
(* A caller repeatedly overrides, excludes and re-completes a parameter set   *)
(* of four abstract names, in every order.  Every reachable request is a test *)
(* for the code (names are mapped to groups of real parameters).              *)
EXTENDS Routing, Json, IOUtils, SequencesExt
Names == {"a", "b", "c", "d"}
Vals == {0, 1}
Perms == {s \in UNION {[1..k -> Names] : k \in 1..3} : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
VARIABLES full, ops
Init == full = [n \in Names |-> 0] /\ ops = <<>> /\ TLCSet(1, {})
DoOverride == \E s \in Perms, v \in Vals :
   /\ full' = Override(full, [i \in 1..Len(s) |-> <<s[i], v>>])
   /\ ops' = Append(ops, <<"override", s, v>>)
DoExclude == \E s \in Perms :      \* drop names (listed in any order), complete again from defaults (all 0)
   /\ full' = Override([n \in Names |-> 0], LET x == Exclude(full, {s[i] : i \in 1..Len(s)})
                                            IN SetToSeq({<<n, x[n]>> : n \in DOMAIN x}))
   /\ ops' = Append(ops, <<"exclude", s, 0>>)
Next == Len(ops) < 2 /\ (DoOverride \/ DoExclude)
Spec == Init /\ [][Next]_<<full, ops>>
\* order of names is irrelevant; unnamed entries keep their values
ByName == \A s, t \in {p \in Perms : Len(p) = 2} :
   ({s[1], s[2]} = {t[1], t[2]}) =>
     Override(full, [i \in 1..2 |-> <<s[i], 1>>]) = Override(full, [i \in 1..2 |-> <<t[i], 1>>])
KeepsOthers == [][\A n \in Names :
   LET o == ops'[Len(ops')] IN
     (\A i \in 1..Len(o[2]) : o[2][i] # n) => full'[n] = full[n]]_<<full, ops>>
Total == DOMAIN full = Names
Collect == TLCSet(1, TLCGet(1) \cup (IF Len(ops) = 2 THEN {ops} ELSE {}))
Emit == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
Inv == ByName /\ Total /\ Collect
=============================================================================
