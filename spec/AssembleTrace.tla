---------------------------- MODULE AssembleTrace ----------------------------
(***************************************************************************)
(* C03, code to specification: recorded assemblies with a user element     *)
(* whose (unsymmetric) local matrices are an integer function of the       *)
(* element's own coordinates, material row and local indices.  All data    *)
(* are integers: coordinates and parameters are multiples of 1/4 in the    *)
(* code and matrices multiples of 1/16.                                    *)
(* K, M: dense result; KS, MS: sparse result (expanded).                   *)
(***************************************************************************)
EXTENDS Pipeline, Emit

VARIABLES t, e, K, M
vars == <<t, e, K, M>>
Tr == Scenarios[t]
If(cond, name) == IF cond THEN {name} ELSE {}

NodeOf(i) == ((i - 1) \div Tr.ndof) + 1
LocK(co, p, i, j) ==
    p[1] * (2 * i + 3 * j * j) + p[Len(p)] * i * j
      + co[NodeOf(i)][1] * (3 * j + 1) - co[NodeOf(j)][2] * (2 * i * i + 1)
      + co[NodeOf(i)][Len(co[1])] * co[NodeOf(j)][1] + 7 * i - 5 * j
LocM(co, p, i, j) ==
    p[Len(p)] * (i * i - 2 * j) + co[NodeOf(j)][1] * (i + 4)
      + co[NodeOf(i)][2] * (j - 2) + 11 * j + i

Nums == NumberTable(Tr.cons)
Local(f(_, _, _, _), ele) ==
    LET co == [a \in 1..Len(ele) - 2 |-> Tr.nodes[ele[a + 2] + 1]]
        p == Tr.mats[ele[2] + 1]
        n == (Len(ele) - 2) * Tr.ndof
    IN  [i \in 1..n |-> [j \in 1..n |-> f(co, p, i, j)]]

Init == /\ t \in 1..Len(Scenarios)
        /\ e = 1
        /\ K = ZeroMat(Nums[2])
        /\ M = ZeroMat(Nums[2])

AssembleElement ==
    /\ e <= Len(Tr.eles)
    /\ LET ele == Tr.eles[e]
           dme == ConnRow(SubSeq(ele, 3, Len(ele)), Nums[1])
       IN  /\ K' = AddElement(K, dme, Local(LocK, ele))
           /\ M' = AddElement(M, dme, Local(LocM, ele))
    /\ e' = e + 1
    /\ UNCHANGED t

Next == AssembleElement
Spec == Init /\ [][Next]_vars
Bad == If(Tr.K # K, "dense-stiffness") \cup If(Tr.M # M, "dense-mass")
       \cup If(Tr.KS # K, "sparse-stiffness") \cup If(Tr.MS # M, "sparse-mass")
Verdict == e = Len(Tr.eles) + 1 =>
             EmitLine("verdict", [id |-> Tr.id, bad |-> SetToSeq(Bad)])
=============================================================================
