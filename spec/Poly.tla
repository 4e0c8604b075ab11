--------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials in up to three variables with integer coefficients, and     *)
(* their exact integrals over the reference domains.  A polynomial is a    *)
(* sequence of terms <<coefficient, i, j, k>> (r^i s^j t^k); like terms    *)
(* need not be collected.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

PAdd(p, q) == TLCEval(p \o q)
PScale(c, pp) ==
    LET p == TLCEval(pp)
    IN  TLCEval([m \in 1..Len(p) |-> <<c * p[m][1], p[m][2], p[m][3], p[m][4]>>])
PMul(pp, qq) ==
    LET p == TLCEval(pp)
        q == TLCEval(qq)
    IN  TLCEval([k \in 1..Len(p) * Len(q) |->
          LET m == p[((k - 1) \div Len(q)) + 1]
              n == q[((k - 1) % Len(q)) + 1]
          IN  <<m[1] * n[1], m[2] + n[2], m[3] + n[3], m[4] + n[4]>>])
Lower(term, v) == [term EXCEPT ![1] = @ * term[v + 1], ![v + 1] = @ - 1]
PDiff(pp, v) == \* v = 1, 2, 3: derivative in r, s, t
    LET p == TLCEval(SelectSeq(pp, LAMBDA m : m[v + 1] > 0))
    IN  TLCEval([m \in 1..Len(p) |-> Lower(p[m], v)])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
(* value at (x[1], x[2], x[3])/q, multiplied by q^d (d >= degree) *)
Powers(x, n) == FoldLeft(LAMBDA a, k : Append(a, a[k] * x), <<1>>,
                         [k \in 1..n |-> k])
PEvalAt(p, X, Y, Z, W, d) ==
    FoldLeft(LAMBDA a, m :
        a + m[1] * X[m[2] + 1] * Y[m[3] + 1] * Z[m[4] + 1]
              * W[d - m[2] - m[3] - m[4] + 1], 0, p)
PEval(p, x, q, d) ==
    PEvalAt(p, Powers(x[1], d), Powers(x[2], d), Powers(x[3], d), Powers(q, d), d)
(* several polynomials at one point *)
PEvalAll(ps, x, q, d) ==
    LET X == Powers(x[1], d)  Y == Powers(x[2], d)
        Z == Powers(x[3], d)  W == Powers(q, d)
    IN  [a \in 1..Len(ps) |-> PEvalAt(ps[a], X, Y, Z, W, d)]
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
PSumOf(f(_), p) == FoldLeft(LAMBDA a, m : a + m[1] * f(m), 0, p)

(* 15 times the integral of x^i over [-1, 1], i <= 5; 3 times it, i <= 3 *)
Seg15 == <<30, 0, 10, 0, 6, 0>>
Seg3 == <<6, 0, 2, 0>>
(* integral over the square, times 225 *)
IntSquare(p) == PSumOf(LAMBDA m : Seg15[m[2] + 1] * Seg15[m[3] + 1], p)
(* integral over the cube, times 27 *)
IntCube(p) == PSumOf(LAMBDA m : Seg3[m[2]+1] * Seg3[m[3]+1] * Seg3[m[4]+1], p)
(* integral over the unit triangle, times 720 (total degree <= 4) *)
IntTri(p) == PSumOf(LAMBDA m : (720 * Fact(m[2]) * Fact(m[3]))
                                 \div Fact(m[2] + m[3] + 2), p)
(* integral over the unit tetrahedron, times 120 (total degree <= 2) *)
IntTet(p) == PSumOf(LAMBDA m : (120 * Fact(m[2]) * Fact(m[3]) * Fact(m[4]))
                                 \div Fact(m[2] + m[3] + m[4] + 3), p)
=============================================================================
