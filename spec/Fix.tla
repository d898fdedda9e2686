-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic for the numeric parts of the specification. *)
(* A real number x is represented by the integer round(x * 10^6).  TLC     *)
(* integers have 32 bits, so |x| < 2147 and every operator below is        *)
(* written so that no intermediate value overflows as long as the result   *)
(* (and each operand) is in that range.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SigTable

ONE  == 1000000
NAN  == 2000000001      \* the harness' code for "not a number"
PINF == 2000000002
NINF == -2000000002

Finite(x) == x < 2000000000 /\ x > -2000000000
Abs(x)  == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* |a - b| <= tol without overflow for any a, b produced by the harness
Near(a, b, tol) == Finite(a) /\ Finite(b) /\
                   (IF (a < 0) = (b < 0) THEN Abs(a - b) <= tol
                    ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a - b) <= tol)

MulAbs(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000
      b1 == b \div 1000  b0 == b % 1000
      m1 == a1 * b0      m2 == a0 * b1
  IN  a1 * b1 + (m1 \div 1000) + (m2 \div 1000)
      + (((m1 % 1000) + (m2 % 1000)) * 1000 + a0 * b0 + 500000) \div 1000000

Mul(a, b) == IF (a < 0) = (b < 0) THEN MulAbs(Abs(a), Abs(b))
             ELSE -MulAbs(Abs(a), Abs(b))
Sq(a) == Mul(a, a)

RECURSIVE DivDigits(_, _, _, _)
DivDigits(q, rem, b, n) ==
  IF n = 0 THEN q
  ELSE DivDigits(q * 10 + (rem * 10) \div b, (rem * 10) % b, b, n - 1)
\* a / b for |b| < 210 and |a/b| < 2147
Div(a, b) ==
  LET A == Abs(a)  B == Abs(b)
      q == DivDigits(A \div B, A % B, B, 6)
  IN  IF (a < 0) = (b < 0) THEN q ELSE -q

RECURSIVE SqrtIter(_, _, _)
SqrtIter(x, g, n) == IF n = 0 \/ g = 0 THEN g ELSE SqrtIter(x, (g + Div(x, g)) \div 2, n - 1)
\* square root (Newton); x <= 100
Sqrt(x) == IF x <= 0 THEN 0 ELSE SqrtIter(x, Max2(ONE, Min2(x, 10 * ONE)), 25)

(* logistic function: table of spacing 1/32 plus third-order Taylor step *)
SigPos(x) ==
  IF x >= 16000000 THEN ONE
  ELSE LET i  == (x + 15625) \div 31250
           r  == x - i * 31250
           s0 == SIGTAB[i + 1]
           s1 == Mul(s0, ONE - s0)
           s2 == Mul(s1, ONE - 2 * s0)
       IN  s0 + Mul(r, s1) + (Mul(Mul(r, r), s2) \div 2)
Sig(x) == IF x >= 0 THEN SigPos(x) ELSE ONE - SigPos(-x)

\* saturating product used for the argument of the logistic function
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0
                ELSE IF (Abs(a) \div 1000) >= (1000000000 \div ((Abs(b) \div 1000) + 1))
                     THEN (IF (a < 0) = (b < 0) THEN 1000000000 ELSE -1000000000)
                     ELSE Mul(a, b)

\* ylo + (yhi - ylo) * logistic(k (x - x0)): the package's only nonlinearity
Sigmoid(x, x0, k, ylo, yhi) == ylo + Mul(yhi - ylo, Sig(SatMul(k, x - x0)))
SigSlope(x, xtp, ytp, x0, k, lo, hi) == ytp + Mul(Sigmoid(x, x0, k, lo, hi), x - xtp)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
=============================================================================
