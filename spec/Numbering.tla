----------------------------- MODULE Numbering ------------------------------
(***************************************************************************)
(* C01.  The numbering pass as a machine that visits one (node, component) *)
(* per step, explored exhaustively for every constraint table with at most *)
(* MaxBits entries; every terminal state is emitted and replayed into the  *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS Pipeline, Emit

CONSTANT MaxBits, MaxDof
VARIABLES cons,     \* the caller's table (never written)
          eqn,      \* the equation table under construction
          neq,      \* equations handed out so far
          at        \* next <<node, component>>

vars == <<cons, eqn, neq, at>>
NNode == Len(cons)
NDof == Len(cons[1])

Shapes == {s \in (1..MaxBits) \X (1..MaxDof) : s[1] * s[2] <= MaxBits}

Init == /\ \E s \in Shapes : cons \in [1..s[1] -> [1..s[2] -> {-1, 0}]]
        /\ eqn = cons
        /\ neq = 0
        /\ at = <<1, 1>>

Advance == at' = IF at[2] < NDof THEN <<at[1], at[2] + 1>> ELSE <<at[1] + 1, 1>>
Running == at[1] <= NNode

Hand == /\ Running
        /\ cons[at[1]][at[2]] = 0
        /\ eqn' = [eqn EXCEPT ![at[1]][at[2]] = neq]
        /\ neq' = neq + 1
        /\ Advance
        /\ UNCHANGED cons

Restrain == /\ Running
            /\ cons[at[1]][at[2]] = -1
            /\ eqn' = [eqn EXCEPT ![at[1]][at[2]] = -1]
            /\ Advance
            /\ UNCHANGED <<cons, neq>>

Done == ~Running
Next == Hand \/ Restrain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Visited == {p \in (1..NNode) \X (1..NDof) :
              p[1] < at[1] \/ (p[1] = at[1] /\ p[2] < at[2])}
Free == {p \in Visited : cons[p[1]][p[2]] = 0}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

Injective == \A p, q \in Free : eqn[p[1]][p[2]] = eqn[q[1]][q[2]] => p = q
Onto == {eqn[p[1]][p[2]] : p \in Free} = 0..(neq - 1)
Monotone == \A p, q \in Free : Before(p, q) => eqn[p[1]][p[2]] < eqn[q[1]][q[2]]
Marked == \A p \in Visited : cons[p[1]][p[2]] = -1 <=> eqn[p[1]][p[2]] = -1
Counted == neq = Cardinality(Free)
(* the three descriptions of the numbering agree *)
Agree == Done => /\ <<eqn, neq>> = NumberTable(cons)
                 /\ neq = FreeCount(cons)
                 /\ \A p \in Free : eqn[p[1]][p[2]] = FreeBefore(cons, p[1], p[2])
ConsKept == [][cons' = cons]_vars
Termination == <>Done

EmitDone == Done => EmitLine("table", [cons |-> cons, eqn |-> eqn, neq |-> neq])
=============================================================================
