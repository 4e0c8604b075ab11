-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* C26.  What the plotting calls leave open.  State: the open figures, in  *)
(* order, each with the quantity and component it shows and its title, and *)
(* the files written.  Quantities: "f" a field of the caller, "u"          *)
(* displacements, "e" strains, "s" stresses, "truss".                      *)
(* TLC generates random sequences of calls.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Emit
CONSTANT Depth
VARIABLES figs, files, hist
vars == <<figs, files, hist>>
Init == figs = <<>> /\ files = {} /\ hist = <<>>
Pick(S) == RandomElement(S)
NoName == "none"
(* name of the k-th figure / file of call n: given by the caller or default   *)
Title(n, k, given) == IF given THEN "t" \o ToString(n) \o "_" \o ToString(k) ELSE ""
Label(n, k, given) == IF given THEN "w" \o ToString(n) \o "_" \o ToString(k) ELSE NoName
File(n, k, save, given, base) ==
    IF ~save THEN NoName
    ELSE IF given THEN "p" \o ToString(n) \o "_" \o ToString(k) \o ".png"
    ELSE base \o ToString(k - 1) \o ".pdf"
N == Len(hist) + 1
Add(new, par) == /\ figs' = figs \o new
                 /\ files' = files \cup ({new[k].file : k \in 1..Len(new)} \ {NoName})
                 /\ hist' = Append(hist, [par EXCEPT !.new = new])
(* a field with ncomp components; flat: given as a vector (one component)     *)
(* many components: saved under the default names                             *)
Field == \E sh \in {IF Pick(1..4) = 1 THEN "12" ELSE Pick({"flat", "1", "2", "3", "4"})} :
         \E o \in {[call |-> "field", shape |-> sh,
                    titled |-> Pick(BOOLEAN), named |-> Pick(BOOLEAN),
                    save |-> Pick(IF sh = "12" THEN {TRUE} ELSE BOOLEAN),
                    filed |-> Pick(IF sh = "12" THEN {FALSE} ELSE BOOLEAN),
                    type |-> Pick({"contourf", "contourf", "pcolor"}),
                    levels |-> Pick({0, 3, 5, 8, 12, 20}),      \* 0: as many as by default (12)
                    fam |-> Pick({"tri3", "tri6", "quad4", "quad9"}), new |-> <<>>]} :
    LET nc == CASE o.shape = "flat" -> 1 [] o.shape = "1" -> 1 [] o.shape = "2" -> 2
                [] o.shape = "3" -> 3 [] o.shape = "4" -> 4 [] o.shape = "12" -> 12
    IN  Add([k \in 1..nc |-> [what |-> "f", comp |-> k, title |-> Title(N, k, o.titled),
                levels |-> IF o.levels = 0 THEN 12 ELSE o.levels,
                label |-> Label(N, k, o.named), file |-> File(N, k, o.save, o.filed, "output")]], o)
(* the results of an analysis, at most once between closings                 *)
Group(w, t) == [k \in 1..Len(t) |-> [what |-> w, comp |-> k, title |-> t[k][1], levels |-> 12,
                                    label |-> t[k][2], file |-> NoName]]
Disp == Group("u", <<<<"$u_x$", "Horizontal displacement">>, <<"$u_y$", "Vertical displacement">>>>)
Strain == Group("e", <<<<"$\\epsilon_{xx}$", "Strain epsilon-xx">>,
                       <<"$\\epsilon_{yy}$", "Strain epsilon-yy">>,
                       <<"$\\gamma_{xy}$", "Strain gamma-xy">>>>)
Stress == Group("s", <<<<"$\\sigma_{xx}$", "Stress sigma-xx">>,
                       <<"$\\sigma_{yy}$", "Stress sigma-yy">>,
                       <<"$\\tau_{xy}$", "Stress tau-xy">>>>)
Results == /\ \A k \in 1..Len(figs) : figs[k].what \notin {"u", "e", "s"}
           /\ \E o \in {[call |-> "results", strains |-> Pick(BOOLEAN), stresses |-> Pick(BOOLEAN),
                         fam |-> Pick({"tri3", "tri6", "quad4", "quad9"}), new |-> <<>>]} :
                Add(Disp \o (IF o.strains THEN Strain ELSE <<>>)
                         \o (IF o.stresses THEN Stress ELSE <<>>), o)
(* models with springs, trusses or beams                                       *)
Structural == \E o \in {[call |-> "structural", type |-> Pick(5..8), strains |-> FALSE,
                         new |-> <<>>]} : Add(<<>>, o)
Truss == \E o \in {[call |-> "truss", titled |-> Pick(BOOLEAN), named |-> Pick(BOOLEAN),
                    save |-> Pick({TRUE, FALSE, FALSE}), filed |-> Pick({TRUE, FALSE}),
                    stresses |-> Pick({"none", "some", "zero"}),
                    widths |-> Pick({<<>>, <<1, 8>>, <<2, 3>>}),    \* in half points; <<>>: 1 to 8
                    new |-> <<>>]} :
    Add(<<[what |-> "truss", comp |-> 1, levels |-> 0,
           widths |-> IF o.widths = <<>> THEN <<1, 8>> ELSE o.widths, title |-> Title(N, 1, o.titled),
           label |-> Label(N, 1, o.named), file |-> IF o.save /\ ~o.filed THEN "output.pdf"
                   ELSE File(N, 1, o.save, TRUE, "output")]>>, o)
Close == /\ figs # <<>>
         /\ figs' = <<>> /\ files' = files
         /\ hist' = Append(hist, [call |-> "close", new |-> <<>>])
(* closing one figure leaves the others, with their own content, open         *)
CloseOne == /\ figs # <<>>
            /\ \E k \in {RandomElement(1..Len(figs))} :
                 /\ figs' = SubSeq(figs, 1, k - 1) \o SubSeq(figs, k + 1, Len(figs))
                 /\ hist' = Append(hist, [call |-> "close1", which |-> k, new |-> <<>>])
            /\ files' = files
Next == Len(hist) < Depth /\ (CloseOne \/ Field \/ Results \/ Structural \/ Truss \/ Close)
Spec == Init /\ [][Next]_vars
(* every component of a call is on its own figure, in order                    *)
OwnFigure == \A k, j \in 1..Len(figs) : k < j =>
    (figs[k].label = NoName \/ figs[j].label = NoName \/ figs[k].label # figs[j].label)
InOrder == \A k \in 1..Len(hist) : \A j \in 1..Len(hist[k].new) :
    hist[k].new[j].what = "f" => hist[k].new[j].comp = j
EmitDone == Len(hist) = Depth => EmitLine("plots", [hist |-> hist, figs |-> figs,
                                                    files |-> SetToSeq(files)])
=============================================================================
