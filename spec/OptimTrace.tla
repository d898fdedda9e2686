----------------------------- MODULE OptimTrace -----------------------------
(* "begin" cfg, p0, sign (of the constant gradient): a gradient descent begins   *)
(* "eval"  p, loss, gradok                                                        *)
(* "ret"   p, loss, losses, rows, flag     "raise"                                *)
(* "bfgs"  success, loss, p; start (point handed to it)                          *)
(* "used"  code, p, loss, term: result of the two-stage optimiser                *)
EXTENDS Optim, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol) \/ (~Finite(a[i]) /\ a[i] = b[i])
Move(s, p) == [i \in 1..Len(p) |-> p[i] - s.sign[i] * Eta(s.d.cfg, s.d.phase)]
NearLoss(a, b) == a = b \/ Near(a, b, 2 + Abs(b) \div 1000000)
MyClauses(s, e) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "eval" -> CLAUSE("no-step-after-the-end", ~s.d.done)
                   \cup CLAUSE("step-from-the-right-point", s.d.done \/ NearV(e.p, s.d.at, 4))
    [] e.ev = "ret" -> CLAUSE("requested-number-of-steps", s.d.done)
                  \cup CLAUSE("best-finite-step", ~s.d.done \/ (NearV(e.p, s.d.res.at, 4) /\ NearLoss(e.loss, s.d.res.loss)))
                  \cup CLAUSE("recorded-losses", ~s.d.done \/ (/\ Len(e.losses) = Len(s.d.res.acc)
                                                               /\ \A i \in 1..Len(e.losses) : NearLoss(e.losses[i], s.d.res.acc[i].loss)
                                                               /\ Len(e.rows) >= Len(e.losses)
                                                               /\ \A i \in 1..Len(e.losses) : NearV(e.rows[i], s.d.res.acc[i].at, 4)))
                  \cup CLAUSE("termination-flag", ~s.d.done \/ e.flag = Flag(s.d))
    [] e.ev = "raise" -> {"raises"}
    [] e.ev = "bfgs" -> CLAUSE("first-stage-start", NearV(e.start, e.p0, 1))
    [] e.ev = "used" -> IF BfgsDelivers(s.b)
           THEN CLAUSE("quasi-newton-used-when-it-delivers", e.code = USE_BFGS /\ e.evals = 0)
                \cup CLAUSE("quasi-newton-result", NearV(e.p, s.b.p, 1) /\ NearLoss(e.loss, s.b.loss) /\ e.term)
           ELSE CLAUSE("fallback-when-it-fails", e.code = USE_ADAM /\ s.d.done)
                \cup CLAUSE("fallback-result", ~s.d.done \/ (NearV(e.p, s.d.res.at, 4) /\ NearLoss(e.loss, s.d.res.loss) /\ (e.term <=> Flag(s.d) = 1)))
    [] OTHER -> {}
C0 == [nwarm |-> 0, W |-> 1, N |-> 1, tol |-> 0, eta |-> 0, weta |-> 0]
MySt0 == [d |-> Start(C0, <<>>), sign |-> <<>>, b |-> [success |-> FALSE, loss |-> NAN, p |-> <<>>]]
MyStep(s, e) ==
  CASE e.ev = "begin" -> [s EXCEPT !.d = Start(e.cfg, e.p0), !.sign = e.sign]
    [] e.ev = "eval" /\ ~s.d.done -> [s EXCEPT !.d = Evaluate(s.d, Kind(s.d, e.loss, e.gradok, e.p), e.loss, Move(s, e.p))]
    [] e.ev = "bfgs" -> [s EXCEPT !.b = [success |-> e.success, loss |-> e.loss, p |-> e.p]]
    [] OTHER -> s
=============================================================================
