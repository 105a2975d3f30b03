-------------------------------- MODULE Num --------------------------------
(* Exact rationals on TLC's 32-bit integers.                                *)
(* A number is <<n, d>> with d > 0 in lowest terms.  Bad = <<0, 0>> stands  *)
(* for "not representable here, hence not judged": it propagates through    *)
(* arithmetic and compares equal to everything.  How many comparisons were  *)
(* vacuous is counted by the trace specification, never ignored silently.   *)
(*                                                                          *)
(* Numbers recorded from the implementation are triples <<k, hi, lo>>:      *)
(* k = 0: the value hi + lo/10^9 (0 <= lo < 10^9); 1: NaN; 2: +inf;         *)
(* 3: -inf; 4: finite, but too large to be written that way.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

MAXI == 2147483647
Bad  == <<0, 0>>
Zero == <<0, 1>>
One  == <<1, 1>>
IsBad(a) == a[2] = 0

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

\* products and sums that would leave the 32-bit range are flagged
MulFits(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= MAXI \div Abs(b)
AddFits(a, b) == IF a >= 0 THEN b <= MAXI - a ELSE b >= -MAXI - a

Norm(n, d) == IF d = 0 THEN Bad
              ELSE IF n = 0 THEN Zero
              ELSE LET g == GCD(Abs(n), Abs(d)) IN
                   IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>

NMul(a, b) ==
    IF IsBad(a) \/ IsBad(b) THEN Bad
    ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
    ELSE LET g1 == GCD(Abs(a[1]), b[2])
             g2 == GCD(Abs(b[1]), a[2])
             n1 == a[1] \div g1
             n2 == b[1] \div g2
             d1 == a[2] \div g2
             d2 == b[2] \div g1
         IN IF MulFits(n1, n2) /\ MulFits(d1, d2) THEN <<n1 * n2, d1 * d2>> ELSE Bad

NAdd(a, b) ==
    IF IsBad(a) \/ IsBad(b) THEN Bad
    ELSE IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE LET g  == GCD(a[2], b[2])
             da == a[2] \div g
             db == b[2] \div g
         IN IF MulFits(a[1], db) /\ MulFits(b[1], da) /\ MulFits(a[2], db)
            THEN LET x == a[1] * db
                     y == b[1] * da
                 IN IF AddFits(x, y) THEN Norm(x + y, a[2] * db) ELSE Bad
            ELSE Bad

NNeg(a) == IF IsBad(a) THEN Bad ELSE <<-a[1], a[2]>>
NSub(a, b) == NAdd(a, NNeg(b))
NInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
\* quotient of factors: 0/0 = 0; x/0 for x # 0 is not specified
NDiv(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE IF b[1] = 0 THEN (IF a[1] = 0 THEN Zero ELSE Bad)
              ELSE NMul(a, NInv(b))
NLeq(a, b) == IF IsBad(a) \/ IsBad(b) THEN TRUE
              ELSE LET x == NSub(b, a) IN IF IsBad(x) THEN TRUE ELSE x[1] >= 0
NMax(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE LET x == NSub(b, a) IN IF IsBad(x) THEN Bad ELSE IF x[1] > 0 THEN b ELSE a
NMin(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE LET x == NSub(b, a) IN IF IsBad(x) THEN Bad ELSE IF x[1] > 0 THEN a ELSE b
NSum(s) == FoldLeft(NAdd, Zero, s)
NProd(s) == FoldLeft(NMul, One, s)

SumI(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdI(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* product of naturals, -1 when it leaves the range
ProdFits(s) == FoldLeft(LAMBDA a, b : IF a < 0 \/ ~MulFits(a, b) THEN -1 ELSE a * b, 1, s)

(* nine decimals of a proper fraction r/d, 0 <= r < d *)
Dec9(r, d) ==
    IF d <= 2147483
    THEN LET a1 == r * 1000   b1 == (a1 % d) * 1000   c1 == (b1 % d) * 1000
         IN (a1 \div d) * 1000000 + (b1 \div d) * 1000 + (c1 \div d)
    ELSE LET step(s) == LET x == s[2] * 10 IN <<s[1] * 10 + (x \div d), x % d>>
         IN FoldLeft(LAMBDA s, i : step(s), <<0, r>>, <<1,2,3,4,5,6,7,8,9>>)[1]
Dec9OK(d) == d <= 214748364

TOL == 40   \* absolute tolerance, in units of 10^-9

(* does the recorded number x denote the rational q (up to rounding)? *)
Close(x, q) ==
    IF IsBad(q) THEN TRUE
    ELSE IF ~Dec9OK(q[2]) THEN TRUE
    ELSE IF x[1] = 4 THEN Abs(q[1]) \div q[2] > 900000
    ELSE IF x[1] # 0 THEN FALSE
    ELSE LET hq == q[1] \div q[2]
             lq == Dec9(q[1] % q[2], q[2])
             dh == x[2] - hq
         IN IF Abs(dh) > 1 THEN FALSE
            ELSE Abs(dh * 1000000000 + (x[3] - lq)) <= TOL
\* two recorded numbers denote the same value (up to rounding)
Near(x, y) == IF x[1] # 0 \/ y[1] # 0 THEN x[1] = y[1]
              ELSE Abs(x[2] - y[2]) <= 1 /\ Abs((x[2] - y[2]) * 1000000000 + (x[3] - y[3])) <= TOL
Vacuous(q) == IsBad(q) \/ ~Dec9OK(q[2])
=============================================================================
