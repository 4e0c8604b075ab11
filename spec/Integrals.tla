------------------------------ MODULE Integrals ------------------------------
(***************************************************************************)
(* Exact integrals of products of basis functions and derivatives over the *)
(* reference domains, as integer tables:                                   *)
(*   Tab.basis[f][a], Tab.diff[f][v][a]  polynomials                       *)
(*   Tab.grad[f][m][n][a][b] / Tab.gden[f]                                 *)
(*                      integral of (d_m N_a)(d_n N_b)                     *)
(*   Tab.mass[f][w][a][b] / Tab.mden[f]                                    *)
(*                      integral of N_a N_b times 1, r, s (w = 1, 2, 3)    *)
(* The tables are computed once, by the assumption, and shared by all      *)
(* workers; TLCEval makes TLC tabulate the intermediate ones.              *)
(***************************************************************************)
EXTENDS Shapes, TLC
CONSTANT Fams       \* the families a configuration needs
Weights(f) == IF f \in {"quad4", "quad8", "quad9"} THEN <<One, Rr, Ss>> ELSE <<One>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, (IF a < 0 THEN -a ELSE a) % (IF b < 0 THEN -b ELSE b))
GcdAll(start, seq) == FoldLeft(Gcd, start, seq)
MakeTab(fams) ==
  LET basis == TLCEval([f \in fams |-> TLCEval(Basis(f))])
      diff == TLCEval([f \in fams |-> TLCEval([v \in 1..Dim(f) |->
                TLCEval([a \in 1..Len(basis[f]) |-> PDiff(basis[f][a], v)])])])
      grad0 == TLCEval([f \in fams |->
         TLCEval([m \in 1..Dim(f) |-> TLCEval([n \in 1..Dim(f) |->
          TLCEval([a \in 1..Len(basis[f]) |-> TLCEval([b \in 1..Len(basis[f]) |->
             IntRef(f, PMul(diff[f][m][a], diff[f][n][b]))])])])])])
      mass0 == TLCEval([f \in fams |-> TLCEval([w \in 1..Len(Weights(f)) |->
          TLCEval([a \in 1..Len(basis[f]) |-> TLCEval([b \in 1..Len(basis[f]) |->
             IntRef(f, PMul(PMul(basis[f][a], Weights(f)[w]), basis[f][b]))])])])])
      den(f) == Scale(f) * Scale(f) * IntDen(f)
      mat(f, g, t) == FoldLeft(GcdAll, g, t)
      gg == TLCEval([f \in fams |-> FoldLeft(LAMBDA g, rows :
                FoldLeft(LAMBDA h, t : mat(f, h, t), g, rows), den(f), grad0[f])])
      mg == TLCEval([f \in fams |-> FoldLeft(LAMBDA h, t : mat(f, h, t), den(f), mass0[f])])
      cut(t, g) == TLCEval([a \in 1..Len(t) |-> TLCEval([b \in 1..Len(t) |-> t[a][b] \div g])])
      grad == TLCEval([f \in fams |-> TLCEval([m \in 1..Dim(f) |->
                TLCEval([n \in 1..Dim(f) |-> cut(grad0[f][m][n], gg[f])])])])
      mass == TLCEval([f \in fams |-> TLCEval([w \in 1..Len(Weights(f)) |->
                cut(mass0[f][w], mg[f])])])
  IN  [basis |-> basis, diff |-> diff, grad |-> grad, mass |-> mass,
       gden |-> TLCEval([f \in fams |-> den(f) \div gg[f]]),
       mden |-> TLCEval([f \in fams |-> den(f) \div mg[f]])]
ASSUME TLCSet(77, TLCEval(MakeTab(Fams)))
Tab == TLCGet(77)
=============================================================================
