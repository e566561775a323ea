------------------------------- MODULE Sheets -------------------------------
(***************************************************************************)
(* What printed key sheets and message sheets must say (C19).              *)
(*                                                                         *)
(* A printed text is a sequence of lines [raw, tok]: the line and its      *)
(* words (references). A key sheet has a header line with the id, keepers, *)
(* expiry, creation and use of the key, then lines with the groups of the  *)
(* key, of which the first 27 end with the columns of the reciprocal table *)
(* and its rows, and ends with the coding legend. A message sheet has two  *)
(* header lines and sections of text, cipher text and traffic.             *)
(***************************************************************************)
EXTENDS StationRules, RealTables, Radiogram
CONSTANTS KeyRec(_), MsgRec(_)    \* the key and message of a reference


wKEEPERS == <<75,69,69,80,69,82,83,58>>
wEXPIRES == <<69,88,80,73,82,69,83,58>>
wCREATED == <<67,82,69,65,84,69,68,58>>
wUSED == <<85,83,69,68,58>>
wX == <<91,88,93>>
wNIL == <<78,73,76>>
wSLASH == <<47>>
wCODING == <<67,79,68,73,78,71>>
wLEGEND == <<76,69,71,69,78,68>>
wIDX == <<73,68,88>>
wCT1 == <<67,84,49>>
wCT2 == <<67,84,50>>
wTO == <<84,79,58>>
wID == <<73,68,58>>
wFROM == <<70,82,79,77>>
wDE_ == <<40,68,69,41,58>>
wTEXT == <<61,84,69,88,84,61>>
wCIPHER == <<61,67,73,80,72,69,82,61>>
wTRAFFIC == <<61,84,82,65,70,70,73,67,61,69,88,65,77,80,76,69,61>>
wDE == <<68,69>>
wEQ == <<61>>
wK == <<75>>

Toks(line) == [j \in 1..Len(line.tok) |-> Str(line.tok[j])]
\* The word after the first occurrence of w, <<>> if there is none.
After(ts, w) == IF \E j \in 1..(Len(ts) - 1) : ts[j] = w THEN ts[(CHOOSE j \in 1..(Len(ts) - 1) : ts[j] = w /\ \A x \in 1..(j - 1) : ts[x] # w) + 1] ELSE <<>>
HasTok(line, w) == \E j \in 1..Len(line.tok) : Str(line.tok[j]) = w
Joined(refs) == FoldLeft(LAMBDA a, r : IF a = <<>> THEN Str(r) ELSE a \o <<44>> \o Str(r), <<>>, refs)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Chunks(s, n) == [j \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (j - 1) * n + 1, Min({j * n, Len(s)}))]
IsSep(s) == s # <<>> /\ ((\A j \in 1..Len(s) : s[j] = 95) \/ (\A j \in 1..Len(s) : s[j] = 45))
OnlySeps(line) == \A j \in 1..Len(line.tok) : IsSep(Str(line.tok[j]))
AnyTime == [y |-> 2000, m |-> 1]
TimeIs(w, minutes) == LET u == Up(w) IN Len(u) = 12 /\ DtgShape(u) /\ DtgMinutes(u, AnyTime) = minutes
Pos(set, from) == IF \E j \in set : j >= from THEN Min({j \in set : j >= from}) ELSE 0

---------------------------------------------------------------------------
(* Key sheets                                                              *)
Columns == [j \in 1..26 |-> <<64 + j>>]
Row(l) == [j \in 1..26 |-> <<l, Tri(l, 64 + j) + 32>>]
Suffix(ts, n) == IF Len(ts) < n THEN <<>> ELSE SubSeq(ts, Len(ts) - n + 1, Len(ts))
Before(ts, n) == SubSeq(ts, 1, Len(ts) - n)

\* The legend: four lines. Symbols of the controls are explained at the right.
RightPart(raw) == \* after the last four blanks
    LET S == {j \in 1..(Len(raw) - 3) : \A x \in 0..3 : raw[j + x] = 32}
    IN  IF S = {} THEN <<>> ELSE SubSeq(raw, Max(S) + 4, Len(raw))
LegendRules(ls) ==
    LET raw(j) == Str(ls[j].raw)
        col(l) == 5 + 2 * (l - 65)
        at(j, l) == IF col(l) <= Len(raw(j)) THEN raw(j)[col(l)] ELSE 0
        expl == {RightPart(raw(j)) : j \in 1..4}
        sym(l) == LET E == {e \in expl : Len(e) >= 3 /\ e[Len(e)] = 41 /\ e[Len(e) - 1] = l /\ e[Len(e) - 2] = 40} IN
                  IF Cardinality(E) = 1 THEN (CHOOSE e \in E : TRUE)[1] ELSE 0
    IN  IF Len(ls) < 4 THEN {<<"C19", "a key sheet has no coding legend">>} ELSE
        Rule(/\ SubSeq(Toks(ls[2]), 1, 1) = <<wIDX>> /\ SubSeq(Toks(ls[3]), 1, 1) = <<wCT1>> /\ SubSeq(Toks(ls[4]), 1, 1) = <<wCT2>>
             /\ \A l \in 65..90 : at(2, l) = l, "C19", "the coding legend is not readable")
        \cup Rule(\A j \in 1..26 : LET l == 64 + j IN
                     /\ IF CT1[j] >= 0 THEN at(3, l) = CT1[j] ELSE at(3, l) = sym(l) /\ sym(l) # 0
                     /\ IF CT2[j] >= 0 THEN at(4, l) = CT2[j] ELSE at(4, l) = sym(l) /\ sym(l) # 0,
                  "C19", "the coding legend does not match the cipher")
        \cup Rule(Cardinality({sym(l) : l \in 87..90}) = 4, "C19", "the coding legend does not match the cipher")

\* ls: the lines of one sheet from its header; k: the key, cre: its creation.
KeySheetRules(ls, k, gs, cre) ==
    LET h == Toks(ls[1])
        legends == {j \in 1..Len(ls) : HasTok(ls[j], wCODING) /\ HasTok(ls[j], wLEGEND)}
        e == IF legends = {} THEN Len(ls) + 1 ELSE Max(legends)
        bodyIdx == {j \in 2..(e - 1) : \E x \in 1..Len(ls[j].tok) : Len(Str(ls[j].tok[x])) = 1 \/ ~IsSep(Str(ls[j].tok[x]))}
        tops == {j \in bodyIdx : Suffix(Toks(ls[j]), 26) = Columns}
        top == IF tops = {} THEN 0 ELSE Min(tops)
        rowAt(j) == j > top /\ j <= top + 26
        groupsOf(j) == IF j = top \/ rowAt(j) THEN IF Len(ls[j].tok) >= 26 THEN Before(Toks(ls[j]), 26) ELSE <<>> ELSE Toks(ls[j])
        shown == Flat([x \in 1..(e - 2) |-> IF (x + 1) \in bodyIdx THEN groupsOf(x + 1) ELSE <<>>])
    IN
    Rule(After(h, wKEEPERS) = (IF k.keepers = <<>> THEN wNIL ELSE Joined(k.keepers)), "C19", "the keepers on a key sheet are wrong")
    \cup Rule(TimeIs(After(h, wEXPIRES), k.expm), "C19", "the expiry on a key sheet is wrong")
    \cup Rule(TimeIs(After(h, wCREATED), cre), "C19", "the creation time on a key sheet is wrong")
    \cup Rule((After(h, wUSED) = wX) <=> k.used, "C19", "the used mark on a key sheet is wrong")
    \cup (IF legends = {} THEN {<<"C19", "a key sheet has no coding legend">>} ELSE
          LegendRules(SubSeq(ls, e, Len(ls)))
          \cup Rule(\A j \in (e + 4)..Len(ls) : OnlySeps(ls[j]), "C19", "there is something else on a key sheet"))
    \cup (IF top = 0 THEN {<<"C19", "a key sheet has no reciprocal table">>} ELSE
          Rule(top + 26 < e /\ \A r \in 1..26 : Suffix(Toks(ls[top + r]), 26) = Row(64 + r), "C19", "the reciprocal table on a key sheet is wrong"))
    \cup Rule(shown = Chunks(Str(k.runes), gs), "C19", "the groups on a key sheet are not those of the key")

\* All sheets: found by their header lines.
Heads(lines) == {j \in 1..Len(lines) : HasTok(lines[j], wKEEPERS) /\ HasTok(lines[j], wEXPIRES)}
Sheet(lines, heads, h) == SubSeq(lines, h, IF \E x \in heads : x > h THEN Min({x \in heads : x > h}) - 1 ELSE Len(lines))
KeysRules(a, r) ==
    LET lines == r.lines
        heads == Heads(lines)
        idAt(h) == IF lines[h].tok = <<>> THEN 0 ELSE lines[h].tok[1]
        with(id) == {h \in heads : idAt(h) = id}
    IN
    IF r.panic THEN {<<"C19", "printing keys crashed">>} ELSE
    Rule(\A x \in 1..Len(a.items) : Cardinality(with(KeyRec(a.items[x]).id)) = 1, "C19", "a selected key is not printed exactly once")
    \cup Rule(Cardinality(heads) = Len(a.items), "C19", "something else than the selected keys is printed")
    \cup Rule(heads = {} \/ \A j \in 1..(Min(heads \cup {Len(lines) + 1}) - 1) : OnlySeps(lines[j]), "C19", "something else than the selected keys is printed")
    \cup UNION {LET k == KeyRec(a.items[x]) IN
                IF Cardinality(with(k.id)) # 1 THEN {} ELSE KeySheetRules(Sheet(lines, heads, CHOOSE h \in with(k.id) : TRUE), k, a.gs, a.crem[x])
                : x \in 1..Len(a.items)}

---------------------------------------------------------------------------
(* Message sheets                                                          *)
MsgHeads(lines) == {j \in 1..(Len(lines) - 1) : HasTok(lines[j], wTO) /\ Len(lines[j + 1].tok) >= 2 /\ Str(lines[j + 1].tok[1]) = wID /\ HasTok(lines[j + 1], wDE_)}
Is(line, w) == Toks(line) = <<w>>
TextToks(s) == LET step(x, c) == IF c \in {32, 9} THEN (IF x.cur = <<>> THEN x ELSE [out |-> Append(x.out, x.cur), cur |-> <<>>])
                                 ELSE [x EXCEPT !.cur = Append(x.cur, c)]
                   e == FoldLeft(step, [out |-> <<>>, cur |-> <<>>], s)
               IN  IF e.cur = <<>> THEN e.out ELSE Append(e.out, e.cur)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
MsgSheetRules(ls, m, gs, minutes) ==
    LET h1 == Toks(ls[1]) h2 == Toks(ls[2])
        sec(w) == Pos({j \in 3..Len(ls) : Is(ls[j], w)}, 3)
        st == sec(wTEXT) sc == sec(wCIPHER) sx == sec(wTRAFFIC)
        end == Len(ls) + 1
        part(from, to) == Flat([x \in 1..(to - from - 1) |-> LET l == ls[from + x] IN IF OnlySeps(l) /\ (\A y \in 1..Len(l.tok) : Len(Str(l.tok[y])) > 20) THEN <<>> ELSE Toks(l)])
        firstAfter(x) == LET S == {y \in {st, sc, sx} : y > x} IN IF S = {} THEN end ELSE Min(S)
        kid == Str(m.kid) ct == Str(m.ct)
        groups == <<kid>> \o Chunks(ct, gs)
        text == TextToks(Str(m.pt))
        shownText == IF st = 0 THEN <<>> ELSE part(st, firstAfter(st))
        shownCt == IF sc = 0 THEN <<>> ELSE part(sc, firstAfter(sc))
        shownTr == IF sx = 0 THEN <<>> ELSE part(sx, firstAfter(sx))
        to == [j \in 1..Len(m.rcpt) |-> Str(m.rcpt[j])]
    IN
    Rule(h1 # <<>> /\ h1[1] = Str(m.dtgs) /\ TimeIs(h1[1], minutes), "C19", "the time on a message sheet is wrong")
    \cup Rule(After(h1, wTO) = (IF m.rcpt = <<>> THEN wNIL ELSE Joined(m.rcpt)), "C19", "the recipients on a message sheet are wrong")
    \cup Rule(After(h2, wDE_) = Str(m.from), "C19", "the sender on a message sheet is wrong")
    \cup Rule(shownText = text, "C19", "the text on a message sheet is not the text of the message")
    \cup Rule(shownCt = (IF ct = <<>> THEN <<>> ELSE groups), "C19", "the groups on a message sheet are not those of the message")
    \cup Rule(ct = <<>> \/ shownTr = to \o <<wDE, Str(m.from), Str(m.dtgs), Dec(Len(groups)), wEQ>> \o groups \o <<wEQ, wK>>,
              "C19", "the traffic on a message sheet is not that of the message")
    \cup Rule(\A j \in 3..(Pos({st, sc, sx, end} \ {0}, 1) - 1) : OnlySeps(ls[j]), "C19", "there is something else on a message sheet")

MsgsRules(a, r) ==
    LET lines == r.lines
        heads == MsgHeads(lines)
        idAt(h) == lines[h + 1].tok[2]
        with(id) == {h \in heads : idAt(h) = id}
    IN
    IF r.panic THEN {<<"C19", "printing messages crashed">>} ELSE
    Rule(\A x \in 1..Len(a.items) : Cardinality(with(MsgRec(a.items[x]).id)) = 1, "C19", "a selected message is not printed exactly once")
    \cup Rule(Cardinality(heads) = Len(a.items), "C19", "something else than the selected messages is printed")
    \cup Rule(heads = {} \/ \A j \in 1..(Min(heads \cup {Len(lines) + 1}) - 1) : OnlySeps(lines[j]), "C19", "something else than the selected messages is printed")
    \cup UNION {LET m == MsgRec(a.items[x]) IN
                IF Cardinality(with(m.id)) # 1 THEN {} ELSE MsgSheetRules(Sheet(lines, heads, CHOOSE h \in with(m.id) : TRUE), m, a.gs, a.dtgm[x])
                : x \in 1..Len(a.items)}

---------------------------------------------------------------------------
(* Files. A text file has the printed text; a PDF has the words of every   *)
(* sheet, on its pages, in characters the font has. sheets: the words of   *)
(* each item printed alone.                                                *)
Words(refs) == SelectSeq(refs, LAMBDA x : ~IsSep(Str(x)))
RECURSIVE Covers(_, _, _)
Covers(ts, pos, sheets) ==
    IF sheets = {} THEN pos = Len(ts) + 1
    ELSE \E s \in sheets : /\ pos + Len(s) - 1 <= Len(ts)
                           /\ SubSeq(ts, pos, pos + Len(s) - 1) = s
                           /\ Covers(ts, pos + Len(s), sheets \ {s})
LongWord(refs) == \E j \in 1..Len(refs) : Len(Str(refs[j])) > 95
Squash(refs) == Flat([j \in 1..Len(refs) |-> Str(refs[j])])
PdfRules(a, r) ==
    LET sheets == {Words(a.sheets[j]) : j \in 1..Len(a.sheets)}
        words == Words(r.toks)
        long == \E s \in sheets : LongWord(s)
    IN
    IF r.panic THEN {<<"C19", "writing a PDF crashed">>}
    ELSE IF a.sheets = <<>> THEN {}
    ELSE IF r.err THEN {<<"C19", "a PDF can not be written">>} ELSE
    Rule(IF long THEN Covers(Squash(words), 1, {Squash(s) : s \in sheets}) ELSE Covers(words, 1, sheets),
         "C19", "a PDF does not have exactly the selected items, complete")
    \cup Rule(r.outside = 0, "C19", "text in a PDF is outside the page")
    \cup Rule(r.overlap = 0, "C19", "text in a PDF is printed over other text")
    \cup Rule(r.noglyph = 0, "C19", "text in a PDF has characters the font does not have")

FileRules(a, r) ==
    Rule(~r.panic, "C19", "writing a text file crashed")
    \cup Rule(IF a.items = <<>> THEN r.err ELSE IF a.writable THEN ~r.err /\ r.file = r.text ELSE r.err, "C19", "a text file is not what is printed")
=============================================================================
