---- MODULE EvalMemoGen ----
EXTENDS EvalMemo
GInit == Init /\ EmitAll
GSpec == GInit /\ [][FALSE]_vars
====
