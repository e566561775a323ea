------------------------------ MODULE MCPages ------------------------------
(***************************************************************************)
(* Putting items (key sheets, message sheets) on pages (C19). Items of any *)
(* height come one at a time and wait until the page they are on is        *)
(* finished; an item higher than a page goes by itself, before or after    *)
(* those that wait, and is broken by the printer. A page may be finished   *)
(* early. At the end every item is on the pages exactly once, and only     *)
(* items higher than a page are broken.                                    *)
(*                                                                         *)
(* The second part lays out the letters of one item: groups of gs letters, *)
(* put on the line when there is room and else on a new line.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS MaxItems, Cap, MaxHeight, MaxLetters, MaxGs, MaxColumns, Mut
VARIABLES phase, h, pending, rows, pages, lay
vars == <<phase, h, pending, rows, pages, lay>>
NoLay == [n |-> 0, gs |-> 1, cols |-> 1, pos |-> 0, lines |-> <<>>]

\* Paging.
InitPages == phase = "pages" /\ h = <<>> /\ pending = <<>> /\ rows = 0 /\ pages = <<>> /\ lay = NoLay
Take(x) ==
    /\ phase = "pages" /\ Len(h) < MaxItems
    /\ h' = Append(h, x)
    /\ LET i == Len(h) + 1 IN
       IF x > Cap
       THEN \/ /\ pages' = Append(pages, <<i>>)
               /\ pending' = (IF Mut = "droppending" THEN <<>> ELSE pending)
               /\ rows' = (IF Mut = "forgetrows" THEN 0 ELSE rows)
            \/ /\ Mut = "none"
               /\ pages' = (IF pending = <<>> THEN pages ELSE Append(pages, pending)) \o << <<i>> >>
               /\ pending' = <<>> /\ rows' = 0
       ELSE \/ /\ rows + x <= Cap
               /\ pending' = Append(pending, i) /\ rows' = rows + x /\ pages' = pages
            \/ /\ pending # <<>> /\ (rows + x > Cap \/ Mut = "none")
               /\ pages' = Append(pages, pending) /\ rows' = x
               /\ pending' = (IF Mut = "keeppage" THEN Append(pending, i) ELSE <<i>>)
    /\ UNCHANGED <<phase, lay>>
End ==
    /\ phase = "pages" /\ phase' = "done"
    /\ pages' = (IF pending = <<>> \/ Mut = "lastpage" THEN pages ELSE Append(pages, pending))
    /\ pending' = <<>> /\ rows' = 0 /\ UNCHANGED <<h, lay>>

Shown == FoldLeft(LAMBDA a, p : a \o p, <<>>, pages)
Height(p) == FoldLeft(LAMBDA a, i : a + h[i], 0, p)
EachOnce == phase = "done" => \A i \in 1..Len(h) : Cardinality({x \in 1..Len(Shown) : Shown[x] = i}) = 1
NothingElse == phase = "done" => Len(Shown) = Len(h)
FitsPage == phase = "done" => \A j \in 1..Len(pages) : Height(pages[j]) <= Cap \/ Len(pages[j]) = 1

\* Layout.
InitLay == /\ phase = "layout" /\ h = <<>> /\ pending = <<>> /\ rows = 0 /\ pages = <<>>
           /\ \E n \in 0..MaxLetters, gs \in 1..MaxGs, c \in 1..MaxColumns : c >= gs /\ lay = [n |-> n, gs |-> gs, cols |-> c, pos |-> 0, lines |-> <<>>]
Width(line) == FoldLeft(LAMBDA a, g : a + Len(g), 0, line) + Len(line) - 1
Group == [j \in 1..(IF lay.pos + lay.gs > lay.n THEN lay.n - lay.pos ELSE lay.gs) |-> lay.pos + j]
Put ==
    /\ phase = "layout" /\ (IF Mut = "wholeonly" THEN lay.pos + lay.gs <= lay.n ELSE lay.pos < lay.n)
    /\ LET l == lay.lines IN
       lay' = [lay EXCEPT !.pos = @ + Len(Group),
                          !.lines = IF l # <<>> /\ Width(l[Len(l)]) + 1 + lay.gs <= (IF Mut = "toowide" THEN lay.cols + 1 ELSE lay.cols)
                                    THEN [l EXCEPT ![Len(l)] = Append(@, Group)]
                                    ELSE Append(l, <<Group>>)]
    /\ UNCHANGED <<phase, h, pending, rows, pages>>
AllPut == phase = "layout" /\ (IF Mut = "wholeonly" THEN lay.pos + lay.gs > lay.n ELSE lay.pos = lay.n)
Read == FoldLeft(LAMBDA a, line : FoldLeft(LAMBDA b, g : b \o g, a, line), <<>>, lay.lines)
AllLetters == AllPut => Read = [j \in 1..lay.n |-> j]
WholeGroups == AllPut => LET gs == FoldLeft(LAMBDA a, line : a \o line, <<>>, lay.lines) IN \A j \in 1..(Len(gs) - 1) : Len(gs[j]) = lay.gs
FitsLine == AllPut => \A j \in 1..Len(lay.lines) : Width(lay.lines[j]) <= lay.cols

Init == InitPages \/ InitLay
Next == (\E x \in 1..MaxHeight : Take(x)) \/ End \/ Put
Spec == Init /\ [][Next]_vars
\* In simulation: the heights of a behaviour that ended.
Show == phase = "done" => PrintT("HEIGHTS " \o ToJson(h))
=============================================================================
