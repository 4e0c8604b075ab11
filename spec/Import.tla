-------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* C21.  Building a model from a mesh by a sequence of import calls.       *)
(* State: the node table (flags), the next element identifier, the blocks  *)
(* and load tables produced so far.  TLC explores random histories.        *)
(* A mesh: points, cell blocks (tag, connectivities, physical numbers),    *)
(* lines with physical numbers.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Emit
CONSTANT Depth
VARIABLES tr, flags, nextid, blocks, rowsl, hist
vars == <<tr, flags, nextid, blocks, rowsl, hist>>
Tr == Scenarios[tr]
NP == Len(Tr.points)

Init == /\ tr \in 1..Len(Scenarios)
        /\ flags = [n \in 1..Len(Scenarios[tr].points) |-> <<0, 0>>]
        /\ nextid = Scenarios[tr].first
        /\ blocks = <<>> /\ rowsl = <<>> /\ hist = <<>>

Members(blk, phys) == SelectSeq([k \in 1..Len(blk.conn) |-> k], LAMBDA k : blk.phys[k] = phys)
(* elements of one physical surface, in mesh order, numbered from nextid *)
Block == \E b \in {RandomElement(1..Len(Tr.cells))} :
         \E p \in {RandomElement(Tr.numbers[1]..Tr.numbers[2])} :
    LET blk == Tr.cells[b]
        mem == Members(blk, p)
        ty == RandomElement(1..4)
        mt == RandomElement(0..3)
    IN  \E q \in {<<ty, mt>>} :
        LET rows == [k \in 1..Len(mem) |->
                        <<nextid + k - 1, q[1], q[2]>> \o blk.conn[mem[k]]]
        IN /\ blocks' = Append(blocks, rows)
           /\ nextid' = nextid + Len(mem)
           /\ hist' = Append(hist, [op |-> "block", tag |-> blk.tag, phys |-> p, ty |-> q[1],
                                    mat |-> q[2], nini |-> nextid, nf |-> nextid + Len(mem),
                                    rows |-> rows])
           /\ UNCHANGED <<tr, flags, rowsl>>
OnLine(p) == {Tr.lines[k][a] + 1 : k \in {i \in 1..Len(Tr.lines) : Tr.lphys[i] = p}, a \in 1..2}
Boundary == \E p \in {RandomElement(Tr.numbers[1]..Tr.numbers[2])} :
            \E f \in {<<RandomElement({0, -1}), RandomElement({0, -1})>>} :
    /\ flags' = [n \in 1..NP |-> IF n \in OnLine(p) THEN f ELSE flags[n]]
    /\ hist' = Append(hist, [op |-> "bc", phys |-> p, bx |-> f[1], by |-> f[2], flags |-> flags'])
    /\ UNCHANGED <<tr, nextid, blocks, rowsl>>
Load == \E p \in {RandomElement(Tr.numbers[1]..Tr.numbers[2])} :
        \E f \in {<<RandomElement(-50..50), RandomElement(-50..50)>>} :
    /\ OnLine(p) # {}
    /\ LET on == SetToSortSeq(OnLine(p), <)
       IN  /\ rowsl' = Append(rowsl, on)
           /\ hist' = Append(hist, [op |-> "load", phys |-> p, px |-> f[1], py |-> f[2],
                                    nodes |-> on, share |-> Len(on)])
    /\ UNCHANGED <<tr, flags, nextid, blocks>>
Next == Len(hist) < Depth /\ (Block \/ Boundary \/ Load)
Spec == Init /\ [][Next]_vars

(* identifiers are consecutive over all blocks *)
Consecutive == LET all == FlattenSeq(blocks) IN
    /\ \A k \in 1..Len(all) : all[k][1] = Tr.first + k - 1
    /\ nextid = Tr.first + Len(all)
(* the flags of a node are those of the last boundary call on a line through it *)
LastCall(n) == LET c == {k \in 1..Len(hist) : hist[k].op = "bc" /\ n \in OnLine(hist[k].phys)}
               IN  IF c = {} THEN <<0, 0>>
                   ELSE LET k == CHOOSE k \in c : \A j \in c : j <= k
                        IN  <<hist[k].bx, hist[k].by>>
FlagsAreLast == \A n \in 1..NP : flags[n] = LastCall(n)
(* each load call names its nodes once, and the shares add to the total        *)
Shares == \A k \in 1..Len(rowsl) : Cardinality({rowsl[k][i] : i \in 1..Len(rowsl[k])}) = Len(rowsl[k])
EmitDone == Len(hist) = Depth => EmitLine("import", [id |-> Tr.id, hist |-> hist, flags |-> flags])
=============================================================================
