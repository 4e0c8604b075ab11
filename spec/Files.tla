-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* C28.  Model folders.  A number is <<m, e>>, m*10^e, and a file is a      *)
(* sequence of lines: rows of numbers, blank lines and comments.  State:   *)
(*   disk   what each folder's files hold (<<>> : the file is not there)   *)
(*   held   the four tables the caller holds, read from a folder or made   *)
(*          in memory                                                      *)
(* Saving a model decorates its files at random; reading strips the        *)
(* decoration; echoing writes the held tables rounded to hundredths (both  *)
(* neighbours are admissible for a tie) into the echo files and nowhere    *)
(* else.  TLC generates random histories for the harness.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Emit
CONSTANT Depth
VARIABLES disk, held, hist
vars == <<disk, held, hist>>
Models == Scenarios          (* [nodes, mater, eles, loads], each a table    *)
Inputs == <<"nodes", "mater", "eles", "loads">>
Echoes == <<"KNODES", "KMATES", "KELEMS", "KLOADS">>
Folders == {"one", "two"}
Empty == [f \in Folders |-> [n \in ToSet(Inputs) \cup ToSet(Echoes) |-> <<>>]]
Init == disk = Empty /\ held = <<>> /\ hist = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Pow(k) == 10^k
(* admissible roundings of a number to hundredths                            *)
Round(t) ==
    IF t[2] >= -2 THEN {t}
    ELSE IF t[2] < -9 THEN {<<0, 0>>}      \* mantissas stay below 10^6
    ELSE LET d == Pow(-2 - t[2])
             lo == Abs(t[1]) \div d
             r2 == 2*(Abs(t[1]) % d)
             s == IF t[1] < 0 THEN -1 ELSE 1
         IN  {<<s*n, -2>> : n \in {k \in {lo, lo + 1} : (k = lo /\ r2 <= d) \/ (k = lo + 1 /\ r2 >= d)}}
(* one line of a file *)
Row(r, form, tail) == [kind |-> "row", row |-> r, form |-> form, tail |-> tail]
Forms == {"plain", "plain", "exp", "bigexp", "plus", "zeros"}
Deco == {<<>>, <<>>, <<[kind |-> "blank"]>>, <<[kind |-> "comment"]>>,
         <<[kind |-> "comment"], [kind |-> "blank"]>>}
(* decorated file of a table: every random choice is bound once, in a function *)
Decorate(tab, deco, form, tail) ==
    FlattenSeq([k \in 1..Len(tab) |-> deco[k] \o <<Row(tab[k], form[k], tail[k])>>])
       \o deco[Len(tab) + 1]
Stripped(lines) == LET rows == SelectSeq(lines, LAMBDA l : l.kind = "row")
                   IN  [k \in 1..Len(rows) |-> rows[k].row]
RandomFn(n, S) == [k \in 1..n |-> RandomElement(S)]
(* as many decorations as the longest table has lines, and one              *)
Widest == 1 + Max({Len(Models[m][Inputs[i]]) : m \in 1..Len(Models), i \in 1..4})
Save == \E f \in {RandomElement(Folders)} : \E m \in {RandomElement(1..Len(Models))} :
        \E deco \in {[i \in 1..4 |-> RandomFn(Widest, Deco)]} :
        \E form \in {[i \in 1..4 |-> RandomFn(Widest, IF i = 3 THEN {"plain", "plus"} ELSE Forms)]} :
        \E tail \in {[i \in 1..4 |-> RandomFn(Widest, {TRUE, FALSE, FALSE})]} :
    LET new == [i \in 1..4 |-> Decorate(Models[m][Inputs[i]], deco[i], form[i], tail[i])]
    IN  /\ disk' = [disk EXCEPT ![f] = [n \in DOMAIN @ |->
                       IF \E i \in 1..4 : Inputs[i] = n
                       THEN new[CHOOSE i \in 1..4 : Inputs[i] = n] ELSE @[n]]]
        /\ hist' = Append(hist, [op |-> "save", folder |-> f, files |-> new])
        /\ UNCHANGED held
Styles == {"bare", "slash", "cwd", "absolute", "dots"}
(* who names the folder: the caller, or the user, asked in a window or, when    *)
(* there is none or it is dismissed, at the console (an empty answer is the     *)
(* current folder)                                                              *)
Asks == {"caller", "caller", "caller", "window", "dismissed", "none"}
Prompts(ask) == IF ask \in {"dismissed", "none"} THEN 1 ELSE 0
Windows(ask) == IF ask \in {"dismissed", "window"} THEN 1 ELSE 0
Read == \E f \in {RandomElement(Folders)} : \E style \in {RandomElement(Styles)} :
        \E ask \in {RandomElement(Asks)} :
    /\ disk[f]["nodes"] # <<>>
    /\ held' = [i \in 1..4 |-> Stripped(disk[f][Inputs[i]])]
    /\ hist' = Append(hist, [op |-> "read", folder |-> f, style |-> style, tables |-> held',
                             ask |-> ask, asked |-> <<Windows(ask), Prompts(ask)>>])
    /\ UNCHANGED disk
Make == \E m \in {RandomElement(1..Len(Models))} :
    /\ held' = [i \in 1..4 |-> Models[m][Inputs[i]]]
    /\ hist' = Append(hist, [op |-> "make", tables |-> held'])
    /\ UNCHANGED disk
Rounded(tab) == [k \in 1..Len(tab) |-> [j \in 1..Len(tab[k]) |-> SetToSeq(Round(tab[k][j]))]]
Echo == \E f \in {RandomElement(Folders)} : \E style \in {RandomElement(Styles)} :
    /\ held # <<>>
    /\ disk' = [disk EXCEPT ![f] = [n \in DOMAIN @ |->
                   IF \E i \in 1..4 : Echoes[i] = n
                   THEN Rounded(held[CHOOSE i \in 1..4 : Echoes[i] = n]) ELSE @[n]]]
    /\ hist' = Append(hist, [op |-> "echo", folder |-> f, style |-> style,
                             tables |-> [i \in 1..4 |-> Rounded(held[i])]])
    /\ UNCHANGED held
Next == Len(hist) < Depth /\ (Save \/ Read \/ Make \/ Echo)
Spec == Init /\ [][Next]_vars
(* what is read is a model somebody saved, whatever the decoration            *)
Faithful == held # <<>> => \E m \in 1..Len(Models) : \A i \in 1..4 : held[i] = Models[m][Inputs[i]]
(* an echo step leaves the input files alone and a read step every file       *)
OnlyEchoes == [][\A f \in Folders :
    /\ (hist'[Len(hist')].op = "echo" => \A i \in 1..4 : disk'[f][Inputs[i]] = disk[f][Inputs[i]])
    /\ (hist'[Len(hist')].op \in {"read", "make"} => disk'[f] = disk[f])]_vars
(* an echo is within half a hundredth                                          *)
Near == \A f \in Folders : \A i \in 1..4 : \A k \in 1..Len(disk[f][Echoes[i]]) :
    \A j \in 1..Len(disk[f][Echoes[i]][k]) : disk[f][Echoes[i]][k][j] # <<>>
EmitDone == Len(hist) = Depth => EmitLine("files", [hist |-> hist])
=============================================================================
