---------------------------- MODULE HaloPopTrace ----------------------------
(* Events: "halo" a, b, c (bit patterns of the five parameters), flag         *)
(*  "near"  a, b, t: values equal within t        "sel" flags, p1, p0, out    *)
(*  "cls"   side: nearest family of each quantity of one returned halo        *)
(*  "share" n, count, mean, var        "tp" kind, tp, tpe, tpl, ref, tol      *)
(*  "given" want, got (all copies), tol                                       *)
(*  "eq"/"ne" a, b: must be equal / must differ                               *)
(*  "call"  a new population begins: no key has been used                     *)
(*  "draw"  key (two words), what: kind and shape;  "split" key, n            *)
(*  "z"     name, z: standardised statistic                                   *)
(*  "scat"  sample of n like halos of mass lgm: mean and second moments of the *)
(*          four scattered unbounded parameters about their prediction; x0, lo, *)
(*          hi (transition of each scatter), rho (pairs)                        *)
EXTENDS HaloPop, PopCov, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MaxUse(e) == e.max
MyClauses(s, e) ==
  CASE e.ev = "halo" -> CLAUSE("one-class-per-halo", Whole(e.a, e.b, e.c, e.flag))
    [] e.ev = "near" -> CLAUSE(e.what, Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.t))
    [] e.ev = "sel" -> CLAUSE("select-by-flag", e.out = Select(e.flags, e.p1, e.p0))
    [] e.ev = "cls" -> CLAUSE("one-class-per-halo", \A i, j \in 1..Len(e.side) : e.side[i] = e.side[j])
    [] e.ev = "share" -> CLAUSE("early-share", ShareOK(e.count, e.mean, e.var))
    [] e.ev = "tp" -> CLAUSE("peak-time-range", PeakTimeOK(e.kind, e.tp, e.ref, e.tol))
                      \cup CLAUSE("shared-peak-time", e.tpe = e.tpl /\ e.tpe = e.tpsel)
    [] e.ev = "given" -> CLAUSE("supplied-peak-time", \A i \in 1..Len(e.got) : Near(e.got[i], e.want, e.tol))
    [] e.ev = "eq" -> CLAUSE(e.what, e.a = e.b)
    [] e.ev = "ne" -> CLAUSE(e.what, e.a # e.b)
    [] e.ev = "draw" ->
        CLAUSE("key-drawn-twice", e.key \notin DOMAIN s.drawn \/
                 (s.drawn[e.key].what = e.what /\ s.drawn[e.key].n < e.max))
        \cup CLAUSE("key-split-and-drawn", e.key \notin s.split)
    [] e.ev = "split" -> CLAUSE("key-split-and-drawn", e.key \notin DOMAIN s.drawn)
    [] e.ev = "z" -> CLAUSE(e.what, Finite(e.z) /\ Abs(e.z) <= e.lim)
    [] e.ev = "scat" ->
        LET sd == [ i \in 1..4 |-> Scatter(e.lgm, e.x0[i], e.lo[i], e.hi[i]) ] \o <<>>
            six == Div(6 * ONE, Sqrt((e.n \div 100) * ONE)) \div 10       \* 6 / sqrt(n)
        IN  CLAUSE("scatter-mean-zero", \A i \in 1..4 : Near(e.mean[i], 0, Mul(six, sd[i]) + 300))
            \cup CLAUSE("scatter-covariance", \A i, j \in 1..4 : i >= j =>
                   LET ss == Mul(sd[i], sd[j]) IN Near(e.mom[i][j], Mul(Corr(e.rho, i, j), ss), ((Mul(six, ss) * (IF i = j THEN 15 ELSE 11)) \div 10) + 300))
    [] e.ev = "raises" -> {"raises"}
    [] OTHER -> {}
MySt0 == [drawn |-> <<>>, split |-> {}]
MyStep(s, e) ==
  CASE e.ev = "call" -> MySt0
    [] e.ev = "draw" -> [s EXCEPT !.drawn = IF e.key \in DOMAIN @ THEN [@ EXCEPT ![e.key].n = @ + 1]
                                            ELSE (e.key :> [what |-> e.what, n |-> 1]) @@ @]
    [] e.ev = "split" -> [s EXCEPT !.split = @ \cup {e.key}]
    [] OTHER -> s
=============================================================================
