--------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* C34.  From a mesh to its displacements.                                 *)
(* A scenario is a mesh with numbered physical groups, a script of import  *)
(* calls (blocks of elements with their materials, supports, loads) and    *)
(* the displacements u the finished model is to have.  The machine first   *)
(* plays the script, growing the tables of the model exactly as the import *)
(* calls must (Import), then numbers and visits the elements it has built, *)
(* which hand their nodes the forces that hold them (Analysis).  The loads *)
(* of the groups add up to these forces, so u is the only equilibrium of   *)
(* the model that was imported.                                            *)
(***************************************************************************)
EXTENDS Analysis
VARIABLES at, flags, table, given
bvars == <<tr, step, inbox, eqtab, at, flags, table, given>>
Op == Tr.script[at]
Nodes == Len(Tr.nodes)

OnLine(p) == {Tr.lines[k][a] + 1 :
                k \in {i \in 1..Len(Tr.lines) : Tr.lphys[i] = p}, a \in 1..2}
Chosen(p) == SelectSeq([k \in 1..Len(Tr.cells) |-> k], LAMBDA k : Tr.cphys[k] = p)

BInit == /\ Init
         /\ at = 1
         /\ flags = [n \in 1..Nodes |-> <<0, 0>>]
         /\ table = <<>>
         /\ given = <<>>
Block == /\ Op.op = "block"
         /\ LET mem == Chosen(Op.phys)
            IN  table' = table \o
                  [k \in 1..Len(mem) |->
                     <<Tr.first + Len(table) + k - 1, Op.ty, Op.mat>>
                       \o Tr.cells[mem[k]]]
         /\ UNCHANGED <<flags, given>>
Hold2 == /\ Op.op = "bc"
         /\ flags' = [n \in 1..Nodes |->
                        IF n \in OnLine(Op.phys) THEN Op.to ELSE flags[n]]
         /\ UNCHANGED <<table, given>>
Load == /\ Op.op = "load"
        /\ given' = Append(given, SetToSortSeq(OnLine(Op.phys), <))
        /\ UNCHANGED <<flags, table>>
Import == /\ at <= Len(Tr.script)
          /\ Block \/ Hold2 \/ Load
          /\ at' = at + 1
          /\ UNCHANGED <<tr, step, inbox, eqtab>>
Analyse == /\ at > Len(Tr.script)
           /\ Next
           /\ UNCHANGED <<at, flags, table, given>>
BNext == Import \/ Analyse
BSpec == BInit /\ [][BNext]_bvars
Imported == at > Len(Tr.script)

(* the script builds the model that is analysed *)
Builds == Imported /\ step = 1 =>
    /\ flags = Tr.cons
    /\ [k \in 1..Len(table) |-> SubSeq(table[k], 4, Len(table[k]))] = Tr.conn
    /\ [k \in 1..Len(table) |-> table[k][3]] = Tr.mat
Consecutive == \A k \in 1..Len(table) : table[k][1] = Tr.first + k - 1
(* every free component of every node can be loaded by some group *)
Reaches == Imported /\ step = 1 => \A n \in 1..Nodes :
    flags[n] # <<-1, -1>> => \E g \in 1..Len(given) :
        /\ \E i \in 1..Len(given[g]) : given[g][i] = n
        /\ \A i \in 1..Len(given[g]) :
              given[g][i] = n \/ flags[given[g][i]] = <<-1, -1>>
EmitBuilt == Imported /\ Done =>
    Emit("bu" \o ToString(Tr.id), [inbox |-> inbox, neq |-> eqtab[2],
                                   table |-> table, flags |-> flags,
                                   given |-> given])
=============================================================================
