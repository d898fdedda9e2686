------------------------------ MODULE EvalMemo ------------------------------
(* Evaluation of histories as a stateful service: the specification state is  *)
(* what has been learnt about each (halo, time); an evaluation through any    *)
(* entry point, in any batch and on any time array, may only repeat it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt

CONSTANTS NH, NT, MaxB, MaxT, Entries
\* requests: batch = sequence of halos (repetition allowed), times = sequence of times
Batches == UNION {[1..n -> 1..NH] : n \in 1..MaxB}
TimeArrs == UNION {[1..n -> 1..NT] : n \in 1..MaxT}

VARIABLES memo, last
vars == <<memo, last>>
Unknown == -1
\* abstract evaluator: value of halo h at time t (an injective code of the pair)
Val(h, t) == h * 100 + t
Init == memo = [h \in 1..NH |-> [t \in 1..NT |-> Unknown]] /\ last = <<>>
Eval(en, b, ts) ==
  /\ last' = [e |-> en, b |-> b, t |-> ts,
              out |-> [i \in 1..Len(b) |-> [j \in 1..Len(ts) |-> Val(b[i], ts[j])]]]
  /\ memo' = [h \in 1..NH |-> [t \in 1..NT |->
                IF (\E i \in 1..Len(b) : b[i] = h) /\ (\E j \in 1..Len(ts) : ts[j] = t) THEN Val(h, t) ELSE memo[h][t]]]
Next == \E en \in Entries, b \in Batches, ts \in TimeArrs : Eval(en, b, ts)
Spec == Init /\ [][Next]_vars
Consistent == \A h \in 1..NH, t \in 1..NT : memo[h][t] \in {Unknown, Val(h, t)}
Stable == [][\A h \in 1..NH, t \in 1..NT : memo[h][t] # Unknown => memo'[h][t] = memo[h][t]]_vars
View == memo
\* enumeration of all requests for replay into the code
EmitAll == JsonSerialize(IOEnv.OUT, [b |-> SetToSeq(Batches), t |-> SetToSeq(TimeArrs)])
=============================================================================
