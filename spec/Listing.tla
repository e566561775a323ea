------------------------------- MODULE Listing -------------------------------
(***************************************************************************)
(* What listings of keys and messages must say (C25): a header line with   *)
(* the names of the columns and a line for every selected item, with its   *)
(* values below the names.                                                 *)
(***************************************************************************)
EXTENDS Sheets

KeyNames == <<<<73,68>>, <<75,69,69,80,69,82,83>>, <<67,82,69,65,84,69,68>>, <<69,88,80,73,82,69,83>>, <<85,83,69,68>>, <<67,79,77,80,82,79,77,73,83,69,68>>, <<67,79,77,77,69,78,84>>>>
MsgNames == <<<<73,68>>, <<68,84,71>>, <<84,79>>, <<68,69>>, <<68,73,71,69,83,84>>>>
wAnonymous == <<65,110,111,110,121,109,111,117,115>>
wYes == <<89,101,115>>
wNo == <<78,111>>
Blank == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

RTrim(s) == LET S == {j \in 1..Len(s) : s[j] \notin Blank} IN IF S = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE j \in S : \A x \in S : x <= j)
\* Where the word w begins in the header after the place from.
WordAt(s, w, from) ==
    {j \in (from + 1)..(Len(s) - Len(w) + 1) : /\ SubSeq(s, j, j + Len(w) - 1) = w
                                               /\ (j = 1 \/ s[j - 1] = 32)
                                               /\ (j + Len(w) > Len(s) \/ s[j + Len(w)] = 32)}
Starts(h, names) ==
    FoldLeft(LAMBDA a, w : LET S == WordAt(h, w, IF a = <<>> THEN 0 ELSE a[Len(a)]) IN Append(a, IF S = {} THEN Len(h) + 1 ELSE Min(S)), <<>>, names)
Field(l, st, j) == RTrim(SubSeq(l, st[j], IF j = Len(st) THEN Len(l) ELSE Min({st[j + 1] - 1, Len(l)})))
Apart(l, st) == \A j \in 2..Len(st) : st[j] > Len(l) \/ l[st[j] - 1] = 32

KeyLine(k, crem, l, st) ==
    /\ Apart(l, st)
    /\ Field(l, st, 1) = Str(k.id)
    /\ Field(l, st, 2) = (IF k.keepers = <<>> THEN wAnonymous ELSE RTrim(Joined(k.keepers)))
    /\ TimeIs(Field(l, st, 3), crem)
    /\ TimeIs(Field(l, st, 4), k.expm)
    /\ Field(l, st, 5) = (IF k.used THEN wYes ELSE wNo)
    /\ Field(l, st, 6) = (IF k.comp THEN wYes ELSE wNo)
    /\ Field(l, st, 7) = RTrim(Str(k.cmt))

\* The beginning of the text, or of the cipher text if there is none.
Digest(m, d) == LET s == RTrim(SelectSeq(Str(m.pt) \o Str(m.ct), LAMBDA c : c \notin {10, 13})) IN
    \/ d = s
    \/ Len(d) > 10 /\ d[Len(d)] = 8230 /\ Len(s) >= Len(d) /\ SubSeq(s, 1, Len(d) - 1) = SubSeq(d, 1, Len(d) - 1)
MsgLine(m, l, st) ==
    /\ Apart(l, st)
    /\ Field(l, st, 1) = Str(m.id)
    /\ Field(l, st, 2) = Str(m.dtgs)
    /\ Field(l, st, 3) = (IF m.rcpt = <<>> THEN wNIL ELSE RTrim(Joined(m.rcpt)))
    /\ Field(l, st, 4) = (IF Str(m.from) = <<>> THEN wNIL ELSE Str(m.from))
    /\ Digest(m, Field(l, st, 5))

LinesRules(n, head, ls, names, same(_, _, _)) ==
    LET st == Starts(Str(head), names)
        good(x, j) == same(x, Str(ls[j]), st)
    IN
    Rule(Len(ls) = n, "C25", "a listing does not have a line for every selected item")
    \cup Rule(\A x \in 1..n : \E j \in 1..Len(ls) : good(x, j), "C25", "an item is not listed as it is")
    \cup Rule(\A j \in 1..Len(ls) : \E x \in 1..n : good(x, j), "C25", "a line of a listing is not of a selected item")
\* keys: what is selected; crem: when they were created.
ListedKeys(keys, crem, head, ls) ==
    IF keys = <<>> /\ ls = <<>> THEN {} ELSE
    LinesRules(Len(keys), head, ls, KeyNames, LAMBDA x, l, st : KeyLine(keys[x], crem[x], l, st))
ListedMsgs(msgs, head, ls) ==
    IF msgs = <<>> /\ ls = <<>> THEN {} ELSE
    LinesRules(Len(msgs), head, ls, MsgNames, LAMBDA x, l, st : MsgLine(msgs[x], l, st))
=============================================================================
