---------------------------- MODULE FlatStoreModel ----------------------------
(* Every request on every small file: the row-range laws, and the requests      *)
(* themselves as behaviours to replay.                                          *)
EXTENDS FlatStore, TLC
CONSTANT MaxN
VARIABLES req
Names == {"b", "a"}
File(n) == [ k \in Names |-> [ i \in 1..n |-> IF k = "a" THEN i ELSE 100 + i ] ]
Idx == (0 .. MaxN + 2) \cup { 0 - i : i \in 1 .. MaxN + 2 }
Keys == { << >>, << "a" >>, << "b" >>, << "a", "b" >>, << "b", "a" >> }
Init == req \in [ n : 0..MaxN, grouped : BOOLEAN, all : BOOLEAN, keys : Keys, a : Idx, b : Idx \cup {END} ]
        /\ (req.all => req.keys = << >>)
Next == FALSE /\ UNCHANGED req
Spec == Init /\ [][Next]_req
R == Load(File(req.n), req.all, req.keys, req.a, req.b)
Whole == Load(File(req.n), req.all, req.keys, 0, END)
InOrder == \A k \in DOMAIN R : \A i \in 1..Len(R[k]) - 1 : R[k][i + 1] = R[k][i] + 1
WholeIsAll == \A k \in DOMAIN Whole : Whole[k] = File(req.n)[k]
Splits == (req.a >= 0 /\ req.b # END /\ req.b >= req.a) =>
          \A k \in DOMAIN R : Slice(File(req.n)[k], 0, req.a) \o R[k] \o Slice(File(req.n)[k], req.b, END) = File(req.n)[k]
Aligned == \A k \in DOMAIN R, q \in DOMAIN R : Len(R[k]) = Len(R[q])
Emit == PrintT(<< "B", req.n, IF req.grouped THEN 1 ELSE 0, IF req.all THEN 1 ELSE 0, Len(req.keys),
                  IF Len(req.keys) > 0 THEN req.keys[1] ELSE "-", req.a, req.b >>)
=============================================================================
