-------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* C05 and C27.  The static analysis step on integer systems.              *)
(* A scenario gives the matrix as a product of a unit-lower and an upper   *)
(* triangular integer factor with nonzero diagonal, with rows permuted     *)
(* (so the matrix is non-singular for every choice, by construction), and  *)
(* the displacements u (in eighths) that the loads must produce.  The      *)
(* machine forms one row of the system per step, then completes one node   *)
(* per step, then reports the energy.                                      *)
(***************************************************************************)
EXTENDS Pipeline, Emit
VARIABLES t, i, A, f, uc
vars == <<t, i, A, f, uc>>
Tr == Scenarios[t]
N == Len(Tr.u)
Nums == NumberTable(Tr.cons)

(* banded triangular factors: rows of <<first column, entries>> *)
Entry(row, j) == IF j < row[1] \/ j >= row[1] + Len(row[2]) THEN 0
                 ELSE row[2][j - row[1] + 1]
Row(k) == LET p == Tr.perm[k]
          IN  [j \in 1..N |->
                 FoldLeft(LAMBDA a, m : a + Entry(Tr.low[p], m) * Entry(Tr.up[m], j),
                          0, [q \in 1..Len(Tr.low[p][2]) |-> Tr.low[p][1] + q - 1])]

Init == t \in 1..Len(Scenarios) /\ i = 1 /\ A = <<>> /\ f = <<>> /\ uc = <<>>
FormRow == /\ i <= N
           /\ A' = Append(A, Row(i))
           /\ f' = Append(f, Dot(A'[i], Tr.u))
           /\ i' = i + 1
           /\ UNCHANGED <<t, uc>>
Complete == /\ i > N /\ i <= N + Len(Tr.cons)
            /\ uc' = Append(uc, CompleteRow(Nums[1][i - N], Tr.u))
            /\ i' = i + 1
            /\ UNCHANGED <<t, A, f>>
Next == FormRow \/ Complete
Spec == Init /\ [][Next]_vars
Done == i = N + Len(Tr.cons) + 1

(* the factors really are triangular with nonzero diagonal: A is regular *)
Regular == i = 1 =>
   /\ \A k \in 1..N : /\ Entry(Tr.low[k], k) # 0 /\ Entry(Tr.up[k], k) # 0
                      /\ Tr.low[k][1] + Len(Tr.low[k][2]) - 1 <= k
                      /\ Tr.up[k][1] >= k
   /\ {Tr.perm[k] : k \in 1..N} = 1..N
   /\ Nums[2] = N
(* every restrained component is zero, every value sits at its own place *)
Placed == Done => \A n \in 1..Len(Tr.cons) : \A c \in 1..Len(Tr.cons[1]) :
             uc[n][c] = IF Tr.cons[n][c] = -1 THEN 0
                        ELSE Tr.u[FreeBefore(Tr.cons, n, c) + 1]
(* twice the energy in sixty-fourths: the work of the loads, up to sign *)
Energy2 == 0 - Dot(f, Tr.u)
EmitDone == Done => Emit("static" \o ToString(Tr.id),
                [id |-> Tr.id, A |-> A, f |-> f, u |-> Tr.u, uc |-> uc,
                 bc |-> Nums[1], energy2 |-> Energy2])
=============================================================================
