------------------------------- MODULE Principal -----------------------------
(***************************************************************************)
(* C19.  Principal values and directions of plane symmetric tensors.       *)
(*  "turned"  a diagonal tensor (l1, l2) turned by a rational rotation     *)
(*            c = (m^2 - n^2)/(m^2 + n^2), s = 2 m n/(m^2 + n^2): values   *)
(*            and directions are known exactly                             *)
(*  "grid"    every integer tensor with entries up to Reach: the values    *)
(*            are the roots of the characteristic polynomial               *)
(*  "near"    almost isotropic or almost diagonal tensors: a large normal  *)
(*            component with a small difference and a small shear, or the  *)
(*            other one nearly its opposite or nearly nothing              *)
(* The turn is a transition: Diagonal -> Turn.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Emit
CONSTANT Reach, Turns, Values
VARIABLES kind, lam, ang, tens, stage
vars == <<kind, lam, ang, tens, stage>>
Vals == {v - Values : v \in 0..2 * Values}
Small == {0} \cup UNION {{v, -v} : v \in {1, 10, 20, 75, 400, 3000, 20000}}
Init == /\ stage = 0
        /\ \/ /\ kind = "turned"
              /\ lam \in Vals \X Vals
              /\ ang \in {<<m, n>> \in (0..Turns) \X (-Turns..Turns) : m + n > 0 /\ m * m + n * n > 0}
              /\ tens = <<lam[1], lam[2], 0>>
           \/ /\ kind = "grid"
              /\ lam = <<>> /\ ang = <<>>
              /\ tens \in (-Reach..Reach) \X (-Reach..Reach) \X (-Reach..Reach)
           \/ /\ kind = "near"
              /\ lam = <<>> /\ ang = <<>>
              /\ \E big \in {30000000, -30000000, 5000, -700000} :
                 \E gap, off \in Small : tens = <<big, big - gap, off>>
           \/ /\ kind = "near"            \* nearly opposite values, nearly uniaxial
              /\ lam = <<>> /\ ang = <<>>
              /\ \E big \in {20000, -20000} :
                 \E gap, off \in {s \in Small : s < 5000 /\ s > -5000} :
                    tens \in {<<big, gap - big, off>>, <<big, gap, off>>,
                              <<gap, big, off>>}
Rr2 == ang[1] * ang[1] + ang[2] * ang[2]
Cc == ang[1] * ang[1] - ang[2] * ang[2]
Ss == 2 * ang[1] * ang[2]
Turn == /\ stage = 0 /\ stage' = 1
        /\ tens' = IF kind # "turned" THEN tens
                   ELSE <<lam[1] * Cc * Cc + lam[2] * Ss * Ss,
                          lam[1] * Ss * Ss + lam[2] * Cc * Cc,
                          (lam[1] - lam[2]) * Cc * Ss>>
        /\ UNCHANGED <<kind, lam, ang>>
Next == Turn
Spec == Init /\ [][Next]_vars
Scale2 == IF kind # "turned" THEN 1 ELSE Rr2 * Rr2
(* turning keeps trace and determinant, and the directions diagonalise        *)
Kept == stage = 1 /\ kind = "turned" =>
    /\ tens[1] + tens[2] = (lam[1] + lam[2]) * Scale2
    /\ tens[1] * Cc + tens[3] * Ss = lam[1] * Scale2 * Cc
    /\ tens[3] * Cc + tens[2] * Ss = lam[1] * Scale2 * Ss
(* the larger magnitude first: by the sign of the trace; disc >= 0 always     *)
Disc == (tens[1] - tens[2]) * (tens[1] - tens[2]) + 4 * tens[3] * tens[3]
Real == stage = 1 /\ kind # "turned" => Disc >= 0
EmitAll == stage = 1 => EmitLine("prin",
    IF kind = "turned" THEN [kind |-> kind, t |-> tens, den |-> Scale2, lam |-> lam,
                             dir |-> <<Cc, Ss, Rr2>>]
    ELSE [kind |-> kind, t |-> tens, den |-> 1,
          trace |-> tens[1] + tens[2], disc |-> Disc])
=============================================================================
