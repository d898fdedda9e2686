-------------------------------- MODULE Optim --------------------------------
(***************************************************************************)
(* The optimiser.  A quasi-Newton stage is followed, when it does not      *)
(* deliver, by gradient descent: n_warm warm-up phases of W steps, each    *)
(* starting from the best point of the one before, then a main phase of N  *)
(* steps.  A step evaluates loss and gradient at a point.                   *)
(*                                                                          *)
(* State d of the descent: cfg; phase (1..n_warm warm-ups, n_warm+1 main); *)
(* acc: accepted (point, loss) pairs of this phase; at: point of the next  *)
(* evaluation; done; res: result of the last finished phase.               *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
SENTINEL == 999990000             \* loss reported when no finite step was visited
USE_BFGS == 0
USE_ADAM == 1
\* quasi-Newton result accepted?
BfgsDelivers(r) == r.success /\ Finite(r.loss) /\ r.loss > 0
Steps(cfg, phase) == IF phase <= cfg.nwarm THEN cfg.W ELSE cfg.N
Eta(cfg, phase) == IF phase <= cfg.nwarm THEN cfg.weta ELSE cfg.eta
\* index of the first smallest loss
RECURSIVE BestFrom(_, _, _)
BestFrom(acc, i, b) == IF i > Len(acc) THEN b ELSE BestFrom(acc, i + 1, IF acc[i].loss < acc[b].loss THEN i ELSE b)
Best(acc) == acc[BestFrom(acc, 2, 1)]
Start(cfg, p0) == [cfg |-> cfg, p0 |-> p0, phase |-> 1, acc |-> <<>>, at |-> p0, done |-> FALSE, res |-> [at |-> p0, loss |-> PINF, acc |-> <<>>, clean |-> TRUE]]
PointOK(p) == \A i \in 1..Len(p) : Finite(p[i])
\* what one evaluation was: "bad" (anything non-finite), "low" (below tolerance) or "fin"
Kind(d, loss, gradok, p) == IF ~Finite(loss) \/ ~gradok \/ ~PointOK(p) THEN "bad"
                            ELSE IF loss < d.cfg.tol THEN "low" ELSE "fin"
\* a phase has ended with these accepted steps
EndPhase(d, acc, clean) ==
  LET b == IF acc = <<>> THEN [at |-> d.at, loss |-> SENTINEL] ELSE Best(acc)
      r == [at |-> b.at, loss |-> b.loss, acc |-> acc, clean |-> clean]
      last == d.phase > d.cfg.nwarm
      enough == d.phase = d.cfg.nwarm /\ b.loss <= d.cfg.tol
      start == IF PointOK(b.at) THEN b.at ELSE d.p0
  IN  [d EXCEPT !.res = r, !.done = last \/ enough, !.phase = @ + 1, !.acc = <<>>, !.at = start]
\* one evaluation; step: where the descent moves to from an accepted point
Evaluate(d, kind, loss, step) ==
  IF kind = "bad" THEN EndPhase(d, d.acc, FALSE)
  ELSE LET acc == Append(d.acc, [at |-> d.at, loss |-> loss]) IN
       IF kind = "low" \/ Len(acc) = Steps(d.cfg, d.phase) THEN EndPhase(d, acc, TRUE)
       ELSE [d EXCEPT !.acc = acc, !.at = step]
Flag(d) == IF d.res.clean THEN 1 ELSE 0
=============================================================================
