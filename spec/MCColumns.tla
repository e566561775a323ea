----------------------------- MODULE MCColumns -----------------------------
(***************************************************************************)
(* Listings as columns (C25). Rows with fields of any length are selected  *)
(* one at a time; the width of every column is found from all of them and  *)
(* from its name, and the rows are then written below the names, every     *)
(* field but the last filled up with blanks and one more. A reader who     *)
(* knows only where the names are gets every field back.                   *)
(* A character is [row, column, place]; a blank is <<>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS MaxRows, MaxLen, Names, Mut     \* Names: the lengths of the names
Some == <<2, 3, 1>>
Two == <<7, 7>>
VARIABLES rows, head, lines, phase
vars == <<rows, head, lines, phase>>
Cols == Len(Names)
Text(row, c, n) == [j \in 1..n |-> <<row, c, j>>]
Blanks(n) == [j \in 1..n |-> <<>>]
Width(c) == LET R == IF Mut = "firstonly" THEN {1} \cap (1..Len(rows)) ELSE 1..Len(rows)
                L == {rows[x][c] : x \in R} \cup (IF Mut = "fieldsonly" /\ R # {} THEN {} ELSE {Names[c]})
            IN  Max(L)
Sep == IF Mut = "nosep" THEN 0 ELSE 1
\* A field that is longer than its column pushes the rest to the right.
Filled(s, c) == IF c = Cols THEN s ELSE s \o Blanks(IF Width(c) + Sep > Len(s) THEN Width(c) + Sep - Len(s) ELSE 0)
RowOf(x, len(_)) == FoldLeft(LAMBDA a, c : a \o Filled(Text(x, c, len(c)), c), <<>>, [c \in 1..Cols |-> c])

Init == rows = <<>> /\ head = <<>> /\ lines = <<>> /\ phase = "select"
Select == /\ phase = "select" /\ Len(rows) < MaxRows
          /\ \E r \in [1..Cols -> 0..MaxLen] : rows' = Append(rows, r)
          /\ UNCHANGED <<head, lines, phase>>
Write == /\ phase = "select" /\ phase' = "written"
         /\ head' = RowOf(0, LAMBDA c : Names[c])
         /\ lines' = [x \in 1..Len(rows) |-> RowOf(x, LAMBDA c : rows[x][c])]
         /\ UNCHANGED rows
Next == Select \/ Write
Spec == Init /\ [][Next]_vars

\* The reader: a name begins after a blank, or at the left.
Starts == {j \in 1..Len(head) : head[j] # <<>> /\ (j = 1 \/ head[j - 1] = <<>>)}
Start(c) == CHOOSE j \in Starts : Cardinality({x \in Starts : x < j}) = c - 1
Ink(s) == LET S == {j \in 1..Len(s) : s[j] # <<>>} IN IF S = {} THEN <<>> ELSE SubSeq(s, 1, Max(S))
Read(l, c) == Ink(SubSeq(l, Start(c), IF c = Cols THEN Len(l) ELSE IF Start(c + 1) - 1 < Len(l) THEN Start(c + 1) - 1 ELSE Len(l)))
NamesApart == phase = "written" => Cardinality(Starts) = Cols
ReadBack == phase = "written" => \A x \in 1..Len(rows) : \A c \in 1..Cols : Read(lines[x], c) = Text(x, c, rows[x][c])
Apart == phase = "written" => \A x \in 1..Len(rows) : \A c \in 2..Cols : Start(c) > Len(lines[x]) \/ lines[x][Start(c) - 1] = <<>>
Show == phase = "written" /\ rows # <<>> => PrintT("SHAPE " \o ToJson(rows))
=============================================================================
