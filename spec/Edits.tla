-------------------------------- MODULE Edits --------------------------------
(***************************************************************************)
(* C07.  Histories of model edits and the solution they must lead to.      *)
(* State: the model as the user holds it, plus what has been done to it:   *)
(*   origin   original number of each node                                 *)
(*   map      the linear map of the plane: len times a rotation or a       *)
(*            reflection; len, mod, amp: factors of lengths, moduli and    *)
(*            loads, active: which of the two load sets act                *)
(* The solution of the edited model is, at node n,                         *)
(*    amp * len^Alpha / mod * map/len * sum over active s of u_s(origin(n))*)
(* where u_s is the solution of the original model for load set s and      *)
(* Alpha is 1 for trusses and 0 for plane elements and springs.            *)
(* TLC explores random histories (simulation) of every edit.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Emit
CONSTANT Depth
VARIABLES tr, hist, nds, con, els, lds, mts, origin, map, len, shift, mod, amp, active
vars == <<tr, hist, nds, con, els, lds, mts, origin, map, len, shift, mod, amp, active>>
Tr == Scenarios[tr]
N == Len(nds)

Init == /\ tr \in 1..Len(Scenarios)
        /\ hist = <<>>
        /\ nds = Tr.nodes /\ con = Tr.cons /\ els = Tr.els
        /\ lds = Tr.loads /\ mts = Tr.mats
        /\ origin = [n \in 1..Len(Tr.nodes) |-> n]
        /\ map = <<<<1, 0>>, <<0, 1>>>> /\ len = 1 /\ shift = <<0, 0>> /\ mod = 1 /\ amp = 1
        /\ active = {1, 2}

(* -- numbering of nodes, elements, materials, load rows -------------------- *)
RandomPerm(n) == RandomElement({[k \in 1..n |-> ((s * k + t) % n) + 1] :
                     s \in {x \in 1..n : \A d \in 2..n : ~(n % d = 0 /\ x % d = 0)},
                     t \in 0..n - 1})
(* p[k] is the old number of new node k *)
Where(p, old) == CHOOSE k \in 1..Len(p) : p[k] = old
Renumber(p) ==
    LET to == TLCEval([o \in 1..N |-> Where(p, o)]) IN
    /\ nds' = [k \in 1..N |-> nds[p[k]]]
    /\ con' = [k \in 1..N |-> con[p[k]]]
    /\ origin' = [k \in 1..N |-> origin[p[k]]]
    /\ els' = [e \in 1..Len(els) |-> [els[e] EXCEPT !.nd =
                  [a \in 1..Len(els[e].nd) |-> to[els[e].nd[a] + 1] - 1]]]
    /\ lds' = [e \in 1..Len(lds) |-> [lds[e] EXCEPT !.n = to[lds[e].n + 1] - 1]]
    /\ UNCHANGED <<mts, map, len, shift, mod, amp, active>>
RenumberNodes == \E p \in {RandomPerm(N)} : Renumber(p)
SwapNodes == \E i \in {RandomElement(1..N)} : \E j \in {RandomElement(1..N)} :
                 Renumber([k \in 1..N |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k])
ReorderElements == /\ \E p \in {RandomPerm(Len(els))} : els' = [k \in 1..Len(els) |-> els[p[k]]]
                   /\ UNCHANGED <<nds, con, lds, mts, origin, map, len, shift, mod, amp, active>>
ReorderLoads == /\ lds' = Reverse(lds)
                /\ UNCHANGED <<nds, con, els, mts, origin, map, len, shift, mod, amp, active>>
(* a row acts in two halves (all loads are even numbers times amp) *)
SplitLoad == \E i \in {RandomElement(1..Len(lds))} :
    /\ lds[i].f[1] % 2 = 0 /\ lds[i].f[2] % 2 = 0
    /\ LET h == [lds[i] EXCEPT !.f = <<lds[i].f[1] \div 2, lds[i].f[2] \div 2>>]
       IN  lds' = Append([lds EXCEPT ![i] = h], h)
    /\ UNCHANGED <<nds, con, els, mts, origin, map, len, shift, mod, amp, active>>
(* another material goes first in the table *)
ShiftMaterials ==
    /\ mts' = <<Tr.spare>> \o mts
    /\ Len(mts) < 6
    /\ els' = [e \in 1..Len(els) |-> [els[e] EXCEPT !.mat = @ + 1]]
    /\ UNCHANGED <<nds, con, lds, origin, map, len, shift, mod, amp, active>>

(* -- the starting node of an element ---------------------------------------- *)
Cycle(s) == Tail(s) \o <<Head(s)>>
Turned(nd) == CASE Len(nd) \in {2, 3, 4} -> Cycle(nd)
                [] Len(nd) = 6 -> Cycle(SubSeq(nd, 1, 3)) \o Cycle(SubSeq(nd, 4, 6))
                [] Len(nd) = 9 -> Cycle(SubSeq(nd, 1, 4)) \o Cycle(SubSeq(nd, 5, 8)) \o <<nd[9]>>
RotateElement == \E e \in {RandomElement(1..Len(els))} :
    /\ els' = [els EXCEPT ![e].nd = Turned(els[e].nd)]
    /\ UNCHANGED <<nds, con, lds, mts, origin, map, len, shift, mod, amp, active>>

(* -- motions and scales -------------------------------------------------------- *)
Move == \E d \in {<<RandomElement(-50..50), RandomElement(-50..50)>>} :
    /\ nds' = [k \in 1..N |-> <<nds[k][1] + d[1], nds[k][2] + d[2]>>]
    /\ shift' = <<shift[1] + d[1], shift[2] + d[2]>>
    /\ UNCHANGED <<con, els, lds, mts, origin, map, len, mod, amp, active>>
QuarterTurn ==
    /\ nds' = [k \in 1..N |-> <<0 - nds[k][2], nds[k][1]>>]
    /\ con' = [k \in 1..N |-> <<con[k][2], con[k][1]>>]
    /\ lds' = [k \in 1..Len(lds) |-> [lds[k] EXCEPT !.f = <<0 - lds[k].f[2], lds[k].f[1]>>]]
    /\ shift' = <<0 - shift[2], shift[1]>>
    /\ map' = <<<<0 - map[2][1], 0 - map[2][2]>>, map[1]>>
    /\ UNCHANGED <<els, mts, origin, len, mod, amp, active>>
(* left and right are exchanged; the elements are listed the other way round  *)
Mirrored(nd) == CASE Len(nd) = 2 -> nd
                  [] Len(nd) = 3 -> <<nd[1], nd[3], nd[2]>>
                  [] Len(nd) = 4 -> <<nd[1], nd[4], nd[3], nd[2]>>
                  [] Len(nd) = 6 -> <<nd[1], nd[3], nd[2], nd[6], nd[5], nd[4]>>
                  [] Len(nd) = 9 -> <<nd[1], nd[4], nd[3], nd[2], nd[8], nd[7], nd[6], nd[5], nd[9]>>
Mirror ==
    /\ nds' = [k \in 1..N |-> <<0 - nds[k][1], nds[k][2]>>]
    /\ lds' = [k \in 1..Len(lds) |-> [lds[k] EXCEPT !.f = <<0 - lds[k].f[1], lds[k].f[2]>>]]
    /\ els' = [e \in 1..Len(els) |-> [els[e] EXCEPT !.nd = Mirrored(els[e].nd)]]
    /\ shift' = <<0 - shift[1], shift[2]>>
    /\ map' = <<<<0 - map[1][1], 0 - map[1][2]>>, map[2]>>
    /\ UNCHANGED <<con, mts, origin, len, mod, amp, active>>
(* a turn by an angle of a 3-4-5 triangle, and everything five times as large *)
Spin(v) == <<3 * v[1] - 4 * v[2], 4 * v[1] + 3 * v[2]>>
FullTurn ==
    /\ \A k \in 1..N : con[k][1] = con[k][2]
    /\ len * 5 <= 500 /\ amp * amp * 25 <= 250000
    /\ nds' = [k \in 1..N |-> Spin(nds[k])]
    /\ lds' = [k \in 1..Len(lds) |-> [lds[k] EXCEPT !.f = Spin(lds[k].f)]]
    /\ shift' = Spin(shift)
    /\ map' = <<<<3 * map[1][1] - 4 * map[2][1], 3 * map[1][2] - 4 * map[2][2]>>,
                <<4 * map[1][1] + 3 * map[2][1], 4 * map[1][2] + 3 * map[2][2]>>>>
    /\ len' = 5 * len /\ amp' = 5 * amp
    /\ UNCHANGED <<con, els, mts, origin, mod, active>>
ScaleLength == \E c \in {RandomElement({2, 3, 10})} :
    /\ len * c <= 100
    /\ nds' = [k \in 1..N |-> <<c * nds[k][1], c * nds[k][2]>>]
    /\ shift' = <<c * shift[1], c * shift[2]>>
    /\ len' = c * len
    /\ map' = <<<<c * map[1][1], c * map[1][2]>>, <<c * map[2][1], c * map[2][2]>>>>
    /\ UNCHANGED <<con, els, lds, mts, origin, mod, amp, active>>
ScaleModuli == \E c \in {RandomElement({2, 5, 1000})} :
    /\ mod * c <= 100000
    /\ mts' = [k \in 1..Len(mts) |-> [mts[k] EXCEPT !.e = c * @]]
    /\ mod' = c * mod
    /\ UNCHANGED <<nds, con, els, lds, origin, map, len, shift, amp, active>>
ScaleLoads == \E c \in {RandomElement({-1, 2, 7, -3})} :
    /\ amp * amp * c * c <= 10000
    /\ lds' = [k \in 1..Len(lds) |-> [lds[k] EXCEPT !.f = <<c * lds[k].f[1], c * lds[k].f[2]>>]]
    /\ amp' = c * amp
    /\ UNCHANGED <<nds, con, els, mts, origin, map, len, shift, mod, active>>
(* one load set is taken away or put back *)
Toggle == \E s \in {1, 2} :
    /\ active' = IF active = {1, 2} THEN {s} ELSE {1, 2}
    /\ UNCHANGED <<nds, con, els, lds, mts, origin, map, len, shift, mod, amp>>

Step(name, A) == A /\ hist' = Append(hist, name)
Next == /\ Len(hist) < Depth
        /\ UNCHANGED tr
        /\ \/ Step("renumber", RenumberNodes)
           \/ Step("swap", SwapNodes)
           \/ Step("reorder", ReorderElements)
           \/ Step("reorder-loads", ReorderLoads)
           \/ Step("split-load", SplitLoad)
           \/ Step("materials", ShiftMaterials)
           \/ Step("rotate-element", RotateElement)
           \/ Step("move", Move)
           \/ Step("turn", QuarterTurn)
           \/ Step("mirror", Mirror)
           \/ Step("spin", FullTurn)
           \/ Step("length", ScaleLength)
           \/ Step("moduli", ScaleModuli)
           \/ Step("loads", ScaleLoads)
           \/ Step("toggle", Toggle)
Spec == Init /\ [][Next]_vars

(* -- the edited model is the original one, transformed ---------------------- *)
R(v) == <<map[1][1] * v[1] + map[1][2] * v[2], map[2][1] * v[1] + map[2][2] * v[2]>>
Similar == /\ map[1][1] * map[1][1] + map[2][1] * map[2][1] = len * len
           /\ map[1][2] * map[1][2] + map[2][2] * map[2][2] = len * len
           /\ map[1][1] * map[1][2] + map[2][1] * map[2][2] = 0
OneToOne == /\ {origin[k] : k \in 1..N} = 1..N
             /\ N = Len(Tr.nodes)
Geometry == \A k \in 1..N :
    LET o == R(Tr.nodes[origin[k]])
    IN  nds[k] = <<o[1] + shift[1], o[2] + shift[2]>>
Supports == \A k \in 1..N : LET o == Tr.cons[origin[k]] IN
    con[k] = IF map[1][1] = 0 THEN <<o[2], o[1]>> ELSE o
(* the same elements on the same nodes, up to the starting node               *)
Key(e, table, back(_)) == <<table[e].ty, {back(table[e].nd[a]) : a \in 1..Len(table[e].nd)}>>
Elements == {Key(e, els, LAMBDA n : origin[n + 1]) : e \in 1..Len(els)}
              = {Key(e, Tr.els, LAMBDA n : n + 1) : e \in 1..Len(Tr.els)}
            /\ Len(els) = Len(Tr.els)
SumSeq(seq, g(_)) == FoldLeft(LAMBDA s, k : s + g(k), 0, [k \in 1..Len(seq) |-> k])
Total(table, s, m, c, back(_)) ==
    SumSeq(table, LAMBDA k : IF table[k].s = s /\ back(table[k].n) = m THEN table[k].f[c] ELSE 0)
Loads == \A s \in {1, 2} : \A k \in 1..N :
    LET o == <<Total(Tr.loads, s, origin[k], 1, LAMBDA n : n + 1),
               Total(Tr.loads, s, origin[k], 2, LAMBDA n : n + 1)>>
        w == R(o)
        own(n) == n + 1
    IN  /\ len * Total(lds, s, k, 1, own) = amp * w[1]
        /\ len * Total(lds, s, k, 2, own) = amp * w[2]
Faithful == Len(hist) = Depth => Similar /\ OneToOne /\ Geometry /\ Supports /\ Elements /\ Loads
EmitDone == Len(hist) = Depth => EmitLine("edit",
   [id |-> Tr.id, hist |-> hist, nodes |-> nds, cons |-> con, els |-> els, loads |-> lds,
    mats |-> mts, origin |-> origin, map |-> map, len |-> len, mod |-> mod,
    amp |-> amp, active |-> SetToSeq(active)])
=============================================================================
