--------------------------------- MODULE Rat ---------------------------------
(* Exact rational numbers <<num, den>> with den > 0 and gcd 1.               *)
EXTENDS Integers, Sequences, SequencesExt

RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Norm(n, d) == LET g == GCD(RAbs(n), RAbs(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN  <<s * (n \div g), s * (d \div g)>>
Norm0(n, d) == IF n = 0 THEN <<0, 1>> ELSE
               LET g == GCD(RAbs(n), RAbs(d))
                   s == IF d < 0 THEN -1 ELSE 1
               IN  <<s * (IF n < 0 THEN -((-n) \div g) ELSE n \div g),
                     IF d < 0 THEN (-d) \div g ELSE d \div g>>
R(n) == <<n, 1>>
Q(n, d) == Norm0(n, d)
RNeg(x) == <<-x[1], x[2]>>
RMul(x, y) == \* cross reduction keeps the intermediate products small
    IF x[1] = 0 \/ y[1] = 0 THEN <<0, 1>>
    ELSE LET g == GCD(RAbs(x[1]), y[2])
             h == GCD(RAbs(y[1]), x[2])
             n1 == IF x[1] < 0 THEN -((-x[1]) \div g) ELSE x[1] \div g
             n2 == IF y[1] < 0 THEN -((-y[1]) \div h) ELSE y[1] \div h
         IN  <<n1 * n2, (x[2] \div h) * (y[2] \div g)>>
RInv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
RDiv(x, y) == RMul(x, RInv(y))
RAdd(x, y) == LET g == GCD(x[2], y[2])
              IN  Norm0(x[1] * (y[2] \div g) + y[1] * (x[2] \div g),
                        x[2] * (y[2] \div g))
RSub(x, y) == RAdd(x, RNeg(y))
RSum(seq) == FoldLeft(RAdd, <<0, 1>>, seq)
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
=============================================================================
