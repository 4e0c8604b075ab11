------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The finite element pipeline of SolidsPy, one operator per step of the   *)
(* algorithm.  Each operator is the effect of one transition; the machines *)
(* and trace specifications (Numbering, Connect, Assemble, Loads, Static,  *)
(* Analysis, ...) only differ in which variables they keep and in what     *)
(* drives them.                                                            *)
(*                                                                         *)
(* Tables are sequences of rows.  Node and equation numbers are the ones   *)
(* of the code, i.e. zero based; -1 marks a restrained degree of freedom.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

-----------------------------------------------------------------------------
(* Numbering: one node.  `k` equations have been handed out before.        *)
NumberComp(acc, c) ==
    IF c = 0 THEN <<Append(acc[1], acc[2]), acc[2] + 1>>
             ELSE <<Append(acc[1], -1), acc[2]>>
NumberRow(row, k) == FoldLeft(NumberComp, <<<<>>, k>>, row)

(* Numbering: the whole table, <<equation table, number of equations>>.    *)
NumberTable(table) ==
    FoldLeft(LAMBDA acc, row :
                LET r == NumberRow(row, acc[2])
                IN  <<Append(acc[1], r[1]), r[2]>>,
             <<<<>>, 0>>, table)

(* Closed form of the same numbering, as the property states it: the       *)
(* number of free components before (n,c) in node-then-component order.    *)
FreeBefore(table, n, c) ==
    Cardinality({p \in (1..Len(table)) \X (1..Len(table[1])) :
                    /\ table[p[1]][p[2]] = 0
                    /\ p[1] < n \/ (p[1] = n /\ p[2] < c)})
FreeCount(table) ==
    Cardinality({p \in (1..Len(table)) \X (1..Len(table[1])) :
                    table[p[1]][p[2]] = 0})

-----------------------------------------------------------------------------
(* Connectivity: the equations of one element.                             *)
ConnRow(conn, eqn) == FlattenSeq([i \in 1..Len(conn) |-> eqn[conn[i] + 1]])

(* Degrees of freedom of an element of each supported type.                *)
TypeNodes == <<4, 6, 3, 9, 2, 2, 2, 2>>
TypeDofNode == <<2, 2, 2, 2, 2, 2, 3, 3>>
TypeNdof(ty) == TypeNodes[ty] * TypeDofNode[ty]

-----------------------------------------------------------------------------
(* Assembly: add one element with local matrix loc and equations dme.      *)
ZeroMat(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
AddElement(mat, dme, loc) ==
    LET n == Len(mat)
        D == 1..Len(dme)
        pre(I) == {i \in D : dme[i] = I - 1}
        add(I, J) == LET P == pre(I) \X pre(J)
                     IN  FoldLeft(LAMBDA a, p : a + loc[p[1]][p[2]], 0,
                                  SetToSeq(P))
        touched == {dme[i] + 1 : i \in D}
    IN  [I \in 1..n |->
            IF I \notin touched THEN mat[I]
            ELSE [J \in 1..n |->
                    IF J \notin touched THEN mat[I][J]
                    ELSE mat[I][J] + add(I, J)]]

-----------------------------------------------------------------------------
(* Loads: add one row <<node, component...>>.                              *)
AddLoad(rhs, row, eqn) ==
    LET ids == eqn[row[1] + 1]
    IN  FoldLeft(LAMBDA acc, c :
                    IF ids[c] = -1 THEN acc
                    ELSE [acc EXCEPT ![ids[c] + 1] = @ + row[c + 1]],
                 rhs, [c \in 1..Len(ids) |-> c])

-----------------------------------------------------------------------------
(* Completion: values of the unknowns back at their nodes.                 *)
CompleteRow(ids, u) == [c \in 1..Len(ids) |-> IF ids[c] = -1 THEN 0 ELSE u[ids[c] + 1]]

-----------------------------------------------------------------------------
(* Integer linear algebra.                                                 *)
Dot(x, y) == FoldLeft(LAMBDA a, i : a + x[i] * y[i], 0, [i \in 1..Len(x) |-> i])
MatVec(A, x) == [i \in 1..Len(A) |-> Dot(A[i], x)]
Sum(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)
=============================================================================
