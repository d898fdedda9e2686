------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* The package as a store-less service.  A caller holds argument objects   *)
(* (whose contents it may overwrite itself between calls), the package's   *)
(* default constants, and all results returned so far.  The specification  *)
(* remembers, per operation and argument contents, the one result it may   *)
(* ever return; a call changes nothing else.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops, Args                 \* operations; argument contents
VARIABLES obj, defaults, results, memo, hist
vars == <<obj, defaults, results, memo, hist>>
F(o, a) == <<o, a>>                 \* the abstract pure function
Init == /\ obj = [o \in Ops |-> CHOOSE a \in Args : \A b \in Args : a <= b]
        /\ defaults = 0 /\ results = <<>>
        /\ memo = [x \in Ops \X Args |-> <<>>] /\ hist = <<>>
Call(o) == /\ results' = Append(results, F(o, obj[o]))
           /\ memo' = [memo EXCEPT ![<<o, obj[o]>>] = F(o, obj[o])]
           /\ hist' = Append(hist, <<"call", o, obj[o]>>)
           /\ UNCHANGED <<obj, defaults>>
\* the CALLER overwrites the contents of its own argument object in place
Refill(o, a) == /\ a # obj[o] /\ obj' = [obj EXCEPT ![o] = a]
                /\ hist' = Append(hist, <<"refill", o, a>>)
                /\ UNCHANGED <<defaults, results, memo>>
Next == \E o \in Ops : Call(o) \/ \E a \in Args : Refill(o, a)
Spec == Init /\ [][Next]_vars
OneResult == \A o \in Ops, a \in Args : memo[<<o, a>>] \in {<<>>, F(o, a)}
Immutable == [][defaults' = defaults /\ SubSeq(results', 1, Len(results)) = results]_vars
ResultsAreMemo == \A i \in 1..Len(results) : memo[results[i]] = results[i]
=============================================================================
