----------------------------- MODULE Radiogram -----------------------------
(***************************************************************************)
(* The radiogram forms of MESSAGE_FORMAT.md and the help text, as a        *)
(* grammar that a reader applies from left to right:                       *)
(*                                                                         *)
(*   [TO ..] DE FROM [DTG] == ADDRESSEES == INSTRUCTIONS COUNT = TEXT      *)
(*   [TO ..] DE FROM [DTG] == ADDRESSEES COUNT = TEXT                      *)
(*   [TO ..] DE FROM [DTG] INSTRUCTION COUNT = TEXT                        *)
(*   [TO ..] DE FROM [DTG] TEXT                                            *)
(*                                                                         *)
(* followed by an optional end sign: = K, = +, K, +, = AR or [AR].         *)
(* Read(raw) is what a careful operator makes of it: v is                  *)
(*   "yes"      the parts are rcpt, from, dtg and text                     *)
(*   "no"       not a radiogram                                            *)
(*   "baddtg"   a radiogram with an impossible date-time group             *)
(*   "empty"    a radiogram without text                                   *)
(*   "unclear"  the documentation allows several readings                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

SP == 32  COMMA == 44  PLUS == 43  EQ == 61  SLASH == 47
White == {32, 9}
LineBreaks == {10, 11, 12, 13, 133, 8232, 8233}
UpperAZ == 65..90
LowerAZ == 97..122
AZ == UpperAZ \cup LowerAZ
Digits == 48..57
CallChars == AZ \cup Digits \cup {SLASH}
HeadChars == CallChars \cup {COMMA} \cup White
UpC(c) == IF c \in LowerAZ THEN c - 32 ELSE c
Up(s) == [j \in 1..Len(s) |-> UpC(s[j])]

\* Line breaks count as a space, CR LF as one.
Norm(raw) ==
    LET step(a, c) ==
          IF c = 10 /\ a.cr THEN [a EXCEPT !.cr = FALSE]
          ELSE [out |-> Append(a.out, IF c \in LineBreaks THEN SP ELSE c), cr |-> c = 13]
    IN  FoldLeft(step, [out |-> <<>>, cr |-> FALSE], raw).out

RECURSIVE Skip(_, _, _), Back(_, _)
Skip(s, i, set) == IF i <= Len(s) /\ s[i] \in set THEN Skip(s, i + 1, set) ELSE i
Back(s, i) == IF i >= 1 /\ s[i] \in White THEN Back(s, i - 1) ELSE i
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
From(s, i) == IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN <<>> ELSE SubSeq(s, 1, i)
Trim(s) == LET e == Back(s, Len(s)) b == Skip(s, 1, White) IN IF b > e THEN <<>> ELSE SubSeq(s, b, e)
NextOf(s, i, c) == LET S == {j \in i..Len(s) : s[j] = c} IN IF S = {} THEN 0 ELSE Min(S)

---------------------------------------------------------------------------
(* The end sign: the text before it, and whether there was one.            *)
StripEnd(s) ==
    LET e == Back(s, Len(s))
        last == UpC(At(s, e))
        b == Back(s, e - 1)
    IN  IF last \in {75, PLUS} /\ At(s, b) = EQ THEN [s |-> Upto(s, Back(s, b - 1)), found |-> TRUE]
        ELSE IF last \in {75, PLUS} /\ b < e - 1 THEN [s |-> Upto(s, b), found |-> TRUE]
        ELSE IF e >= 4 /\ Up(SubSeq(s, e - 3, e)) = <<91, 65, 82, 93>> THEN [s |-> Upto(s, Back(s, e - 4)), found |-> TRUE]
        ELSE IF e >= 3 /\ Up(SubSeq(s, e - 1, e)) = <<65, 82>> /\ At(s, Back(s, e - 2)) = EQ
             THEN [s |-> Upto(s, Back(s, Back(s, e - 2) - 1)), found |-> TRUE]
        ELSE [s |-> Upto(s, e), found |-> FALSE]

---------------------------------------------------------------------------
(* Date-time groups: ddHHMM, zone letter, month, year.                     *)
MonthNames == <<<<74,65,78>>, <<70,69,66>>, <<77,65,82>>, <<65,80,82>>, <<77,65,89>>, <<74,85,78>>,
                <<74,85,76>>, <<65,85,71>>, <<83,69,80>>, <<79,67,84>>, <<78,79,86>>, <<68,69,67>>>>
MAJ == <<77,65,74>>
OKT == <<79,75,84>>
Num2(s, i) == (s[i] - 48) * 10 + s[i + 1] - 48
AllIn(s, set) == \A j \in 1..Len(s) : s[j] \in set
\* The shape of a group, as upper case text: 6 digits [letter [month [year]]].
DtgShape(t) ==
    /\ Len(t) \in {6, 7, 10, 12}
    /\ AllIn(SubSeq(t, 1, 6), Digits)
    /\ Len(t) >= 7 => t[7] \in UpperAZ
    /\ Len(t) >= 10 => SubSeq(t, 8, 10) \in {MonthNames[m] : m \in 1..12} \cup {MAJ, OKT}
    /\ Len(t) = 12 => t[11] \in Digits /\ t[12] \in Digits
Swedish(t) == Len(t) >= 10 /\ SubSeq(t, 8, 10) \in {MAJ, OKT}
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* Offset from UTC in hours; local time is UTC where this is used.
Zone(c) == CASE c \in 65..73 -> c - 64 [] c \in 75..77 -> c - 65 [] c \in 78..89 -> 77 - c [] OTHER -> 0
ZoneOf(t) == IF Len(t) >= 7 THEN Zone(t[7]) ELSE 0
DtgYear(t, now) == IF Len(t) < 12 THEN now.y ELSE LET n == Num2(t, 11) IN IF n >= 69 THEN 1900 + n ELSE 2000 + n
DtgMonth(t, now) == IF Len(t) < 10 THEN now.m ELSE CHOOSE m \in 1..12 : MonthNames[m] = SubSeq(t, 8, 10)
DtgPossible(t, now) ==
    /\ Num2(t, 1) >= 1 /\ Num2(t, 1) <= DaysIn(DtgYear(t, now), DtgMonth(t, now))
    /\ Num2(t, 3) <= 23 /\ Num2(t, 5) <= 59
\* Days since 1 January 1970.
Days(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
        doy == (153 * mm + 2) \div 5 + d - 1
    IN  yy * 365 + yy \div 4 - yy \div 100 + yy \div 400 + doy - 719468
\* Minutes since then, UTC. now: year, month (in the zone of the group).
DtgMinutes(t, now) ==
    Days(DtgYear(t, now), DtgMonth(t, now), Num2(t, 1)) * 1440 + (Num2(t, 3) - ZoneOf(t)) * 60 + Num2(t, 5)

---------------------------------------------------------------------------
NoParts == [rcpt |-> <<>>, from |-> <<>>, dtg |-> <<>>, text |-> <<>>]
Verdict_(v) == [v |-> v] @@ NoParts
LOCAL INSTANCE TLC

\* DE as a word of its own, followed by a call-sign.
DeAt(s, i) ==
    /\ UpC(At(s, i)) = 68 /\ UpC(At(s, i + 1)) = 69
    /\ i = 1 \/ At(s, i - 1) \in White
    /\ At(s, i + 2) \in White
    /\ At(s, Skip(s, i + 2, White)) \in CallChars

Tokens(s) ==
    LET step(a, c) == IF c \in {SP, COMMA} THEN (IF a.cur = <<>> THEN a ELSE [out |-> Append(a.out, a.cur), cur |-> <<>>])
                      ELSE [a EXCEPT !.cur = Append(@, UpC(c))]
        r == FoldLeft(step, [out |-> <<>>, cur |-> <<>>], s)
    IN  IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

\* Letters up to four, digits, then "=" at the position returned (0: not so).
ShortHead(s, b) ==
    LET e1 == Skip(s, b, AZ)
        e2 == Skip(s, Skip(s, e1, White), Digits)
        e3 == Skip(s, e2, White)
    IN  IF e1 - b <= 4 /\ At(s, e3) = EQ THEN e3 ELSE 0
\* Letters and space, then digits.
Instructions(s) ==
    LET e == Skip(s, Skip(s, 1, AZ \cup White), Digits) IN e > Len(s) \/ Skip(s, e, White) > Len(s)

\* Where the text starts: position, or 0 when unclear.
TextStart(s, b) ==
    IF At(s, b) = EQ THEN
        IF At(s, b + 1) = EQ THEN
            LET c == NextOf(s, b + 2, EQ) IN
            IF c = 0 \/ c = b + 2 \/ ~AllIn(SubSeq(s, b + 2, c - 1), HeadChars) THEN 0
            ELSE IF At(s, c + 1) = EQ THEN
                LET d == NextOf(s, c + 2, EQ) IN
                IF d = 0 \/ d = c + 2 \/ ~Instructions(SubSeq(s, c + 2, d - 1)) THEN 0 ELSE d + 1
            ELSE c + 1
        ELSE b + 1
    ELSE LET h == ShortHead(s, b) IN
         IF h # 0 THEN h + 1
         ELSE IF NextOf(s, b, EQ) # 0 THEN 0 ELSE b

Unusual == {160, 383, 8490, 5760, 8239, 8287, 12288} \cup 8192..8202
TwoEQ(s) == \E j \in 1..Len(s) - 1 : s[j] = EQ /\ s[j + 1] = EQ

Read(raw, now) ==
    LET n == Norm(raw)
        DEs == {i \in 1..Len(n) : DeAt(n, i)}
    IN
    IF DEs = {} THEN Verdict_("no") ELSE
    LET end == StripEnd(n)
        s == end.s
        i == Min(DEs)
        before == Upto(s, i - 1)
        j == Skip(s, i + 2, White)
        e == Skip(s, j, CallChars)
        k == Skip(s, e, White)
        t == LET x == Skip(s, k, AZ \cup Digits) IN IF x = k THEN <<>> ELSE Up(SubSeq(s, k, x - 1))
        six == Len(t) >= 6 /\ AllIn(SubSeq(t, 1, 6), Digits)
        dtg == IF six THEN t ELSE <<>>
        afterDtg == k + Len(dtg)
        b == Skip(s, afterDtg, White)
        ts == TextStart(s, b)
        text == Trim(From(s, ts))
    IN
    IF \/ \E x \in 1..Len(n) : n[x] \in Unusual
       \/ ~AllIn(before, HeadChars \ {9})
       \/ e = j                                   \* the end sign was the call-sign
       \/ At(s, e) \notin White \cup {EQ, 0}
       \/ six /\ ~DtgShape(dtg)
       \/ six /\ At(s, afterDtg) \notin White \cup {EQ, 0}
    THEN Verdict_("unclear")
    ELSE IF six /\ Swedish(dtg) THEN Verdict_("unclear")
    ELSE IF six /\ ~DtgPossible(dtg, now) THEN Verdict_("baddtg")
    ELSE IF b > Len(s) THEN Verdict_("empty")
    ELSE IF \/ ts = 0
            \/ TwoEQ(text)
            \/ text # <<>> /\ text[1] = EQ
            \/ text # <<>> /\ text[Len(text)] = EQ
            \/ text # <<>> /\ text[Len(text)] = PLUS /\ ~end.found
         THEN Verdict_("unclear")
    ELSE [v |-> IF text = <<>> THEN "empty" ELSE "yes",
          rcpt |-> Tokens(before), from |-> Up(SubSeq(s, j, e - 1)), dtg |-> dtg, text |-> text]
=============================================================================
