--------------------------- MODULE ShapeFunctions ----------------------------
(***************************************************************************)
(* C13.  Evaluation of each family's nodal basis and its derivatives, one  *)
(* evaluation point per state.  Points are fam/(x)/q; they form a grid     *)
(* with more points per direction than the degree, so no other polynomial  *)
(* of the space agrees on it; scenario points are added at random.         *)
(***************************************************************************)
EXTENDS Shapes, Emit
CONSTANT GridQ      \* grid points are multiples of 1/GridQ
VARIABLES fam, pt, over, stage
vars == <<fam, pt, over, stage>>

(* constant tables, evaluated once *)
Bases == [f \in {Families[n] : n \in 1..7} |-> Basis(f)]
Diffs == [f \in {Families[n] : n \in 1..7} |->
            [v \in 1..Dim(f) |-> [a \in 1..Len(Bases[f]) |-> PDiff(Bases[f][a], v)]]]

Lo(f) == IF f \in {"tri3", "tri6", "tet4"} THEN 0 ELSE -GridQ
Inside(f, x) == CASE f \in {"tri3", "tri6"} -> x[1] + x[2] <= GridQ
                  [] f = "tet4" -> x[1] + x[2] + x[3] <= GridQ
                  [] OTHER -> TRUE
Init == stage = 0 /\
        \/ /\ fam \in {Families[n] : n \in 1..7}
           /\ over = GridQ
           /\ pt \in {x \in (Lo(fam)..GridQ) \X (Lo(fam)..GridQ)
                            \X (IF Dim(fam) = 3 THEN Lo(fam)..GridQ ELSE {0}) :
                       Inside(fam, x)}
        \/ \E n \in 1..Len(Scenarios) : /\ fam = Scenarios[n].fam
                                        /\ pt = Scenarios[n].pt
                                        /\ over = Scenarios[n].q
(* evaluate the basis at the point *)
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<fam, pt, over>>
Spec == Init /\ [][Next]_vars

N(f, x, qq) == PEvalAll(Bases[f], x, qq, Degree(f))
D(f, x, qq) == [v \in 1..Dim(f) |->
                  PEvalAll(Diffs[f][v], x, qq, Degree(f))]
Total(seq) == FoldLeft(LAMBDA a, b : a + b, 0, seq)

(* N_a(node b) = delta_ab, and N_a lies in the family's polynomial space *)
BasisIsNodal == stage = 1 /\ pt = <<0, 0, 0>> =>
    /\ \A a, b \in 1..Len(RefNodes(fam)) :
         PEval(Bases[fam][a], RefNodes(fam)[b], 2, Degree(fam))
           = IF a = b THEN Scale(fam) * Pow(2, Degree(fam)) ELSE 0
    /\ \A a \in 1..Len(RefNodes(fam)) : \A m \in 1..Len(Bases[fam][a]) :
         LET z == Bases[fam][a][m]
         IN  InSpace(fam, z) \/ Coef(Bases[fam][a], z[2], z[3], z[4]) = 0
Unity == stage = 1 =>
         /\ Total(N(fam, pt, over)) = Scale(fam) * Pow(over, Degree(fam))
         /\ LET d == D(fam, pt, over) IN \A v \in 1..Dim(fam) : Total(d[v]) = 0
(* linear completeness: positions are reproduced *)
Reproduces == stage = 1 => LET n == N(fam, pt, over) IN \A v \in 1..Dim(fam) :
    Total([a \in 1..Len(RefNodes(fam)) |-> RefNodes(fam)[a][v] * n[a]]) * over
      = 2 * pt[v] * Scale(fam) * Pow(over, Degree(fam))
EmitAll == stage = 1 => EmitLine("shape", [fam |-> fam, pt |-> pt, q |-> over,
              den |-> Scale(fam) * Pow(over, Degree(fam)),
              N |-> N(fam, pt, over), D |-> D(fam, pt, over)])
=============================================================================
