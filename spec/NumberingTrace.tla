--------------------------- MODULE NumberingTrace ---------------------------
(***************************************************************************)
(* C01, code to specification.  Every scenario is one recorded call:       *)
(*   cons  the constraint table handed to the code                         *)
(*   bc    the equation table it returned      neq   the count it returned *)
(*   after the caller's table after the call                               *)
(* One step consumes one node row.  The verdict is total: a set of failing *)
(* clauses, empty when the recorded call is a behaviour of the numbering   *)
(* machine.                                                                *)
(***************************************************************************)
EXTENDS Pipeline, Emit

VARIABLES t, row, neq, bad
vars == <<t, row, neq, bad>>

Tr == Scenarios[t]
If(cond, name) == IF cond THEN {name} ELSE {}

Init == /\ t \in 1..Len(Scenarios)
        /\ row = 1
        /\ neq = 0
        /\ bad = LET s == Scenarios[t]
                 IN  If(Len(s.bc) # Len(s.cons), "number-of-rows")
                     \cup If(s.after # s.cons, "caller-table-changed")

Step == /\ row <= Len(Tr.cons)
        /\ LET r == NumberRow(Tr.cons[row], neq)
           IN  /\ neq' = r[2]
               /\ bad' = bad \cup
                    IF row > Len(Tr.bc) THEN {"missing-row"}
                    ELSE If(Tr.bc[row] # r[1], "equation-numbers")
        /\ row' = row + 1
        /\ UNCHANGED t

Finish == /\ row = Len(Tr.cons) + 1
          /\ bad' = bad \cup If(Tr.neq # neq, "equation-count")
          /\ row' = row + 1
          /\ UNCHANGED <<t, neq>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Verdict == row = Len(Tr.cons) + 2 =>
             EmitLine("verdict", [id |-> Tr.id, bad |-> SetToSeq(bad)])
=============================================================================
