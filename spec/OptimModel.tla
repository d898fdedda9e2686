----------------------------- MODULE OptimModel -----------------------------
(* All fault sequences: every evaluation may be finite with one of a few      *)
(* losses, below tolerance, or non-finite.  Points are step counters.          *)
EXTENDS Optim, TLC, Json, IOUtils, SequencesExt
CONSTANTS Tier, Losses
Cfgs == IF Tier = 0 THEN [nwarm : 0..2, W : {1, 2}, N : 1..3, tol : {0, 500000}, eta : {1}, weta : {5}]
        ELSE [nwarm : 0..2, W : 1..3, N : 1..4, tol : {0, 500000}, eta : {1}, weta : {5}]
Low(cfg) == IF cfg.tol = 0 THEN -ONE ELSE cfg.tol \div 2
VARIABLES d, hist, n
vars == <<d, hist, n>>
Init == \E c \in Cfgs : (c.nwarm = 0 => c.W = 1) /\ d = Start(c, <<0>>) /\ hist = <<>> /\ n = 1
Next == /\ ~d.done /\ n' = n + 1
        /\ \/ \E k \in 1..Losses : d' = Evaluate(d, "fin", k * ONE, <<n>>) /\ hist' = Append(hist, k)
           \/ d' = Evaluate(d, "low", Low(d.cfg), <<n>>) /\ hist' = Append(hist, 0)
           \/ d' = Evaluate(d, "bad", 0, <<n>>) /\ hist' = Append(hist, -1)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Total(c) == c.nwarm * c.W + c.N
Bounded == Len(hist) <= Total(d.cfg)
ExactSteps == d.done /\ (\A i \in 1..Len(hist) : hist[i] > 0) => Len(hist) = Total(d.cfg)
BestOfPhase == d.done => \A i \in 1..Len(d.res.acc) : d.res.loss <= d.res.acc[i].loss
FlagMeans == d.done => ((\A i \in 1..Len(hist) : hist[i] >= 0) => Flag(d) = 1)
FlagBad == d.done /\ hist[Len(hist)] = -1 => Flag(d) = 0
LowStops == \A i \in 1..(Len(hist) - 1) : hist[i] = 0 => d.phase > 1
SentinelOnlyWithoutSteps == d.done => (d.res.loss = SENTINEL <=> d.res.acc = <<>>)
Finishes == <>(d.done)
Emit == IF d.done THEN PrintT(<<"B", d.cfg.nwarm, d.cfg.W, d.cfg.N, d.cfg.tol, hist>>) ELSE TRUE
\* the quasi-Newton decision over its whole outcome table
Outcomes == [success : BOOLEAN, loss : {NAN, PINF, NINF, -ONE, 0, 1, ONE, 1999999999}]
Decision == \A r \in Outcomes : BfgsDelivers(r) <=> (r.success /\ r.loss \in {1, ONE, 1999999999})
=============================================================================
