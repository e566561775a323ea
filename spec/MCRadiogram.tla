---------------------------- MODULE MCRadiogram ----------------------------
(***************************************************************************)
(* An operator writes radiograms in every documented form, word by word,   *)
(* with any spacing and line breaks; reading them gives the parts written. *)
(* In simulation the radiograms are printed and given to the code.         *)
(***************************************************************************)
EXTENDS Radiogram, RadioWords, TLC, Json
CONSTANTS Calls, Words, Dtgs, Seps, Ends, MaxRcpt, MaxWords
VARIABLES raw, stage, parts, nw
vars == <<raw, stage, parts, nw>>

Now == [y |-> 2026, m |-> 11]
Init == raw = <<>> /\ stage = "to" /\ parts = NoParts /\ nw = 0
Go(piece, st) == raw' = raw \o piece /\ stage' = st

To(c, sep) ==
    /\ stage = "to" /\ Len(parts.rcpt) < MaxRcpt
    /\ Go(c \o sep, "to")
    /\ parts' = [parts EXCEPT !.rcpt = Append(@, Up(c))]
    /\ UNCHANGED nw
De(c, d, sep) ==
    /\ stage = "to"
    /\ raw # <<>> => raw[Len(raw)] \in White \cup LineBreaks
    /\ Go(d \o sep \o c, "head")
    /\ parts' = [parts EXCEPT !.from = Up(c)]
    /\ UNCHANGED nw
Dtg(t, sep) ==
    /\ stage = "head" /\ parts.dtg = <<>>
    /\ Go(sep \o t, "head")
    /\ parts' = [parts EXCEPT !.dtg = Up(t)]
    /\ UNCHANGED nw
COL == <<67, 79, 76>>
Full(c, sep) == stage = "head" /\ Go(sep \o <<EQ, EQ>> \o sep \o c \o sep \o <<EQ, EQ>> \o sep \o COL \o sep \o <<49, 50>> \o sep \o <<EQ>>, "text") /\ UNCHANGED <<parts, nw>>
FullBare(c, sep) == stage = "head" /\ Go(sep \o <<EQ, EQ>> \o c \o <<EQ, EQ, SP, EQ>>, "text") /\ UNCHANGED <<parts, nw>>
Semi(c, sep) == stage = "head" /\ Go(sep \o <<EQ, EQ>> \o sep \o c \o sep \o <<EQ>>, "text") /\ UNCHANGED <<parts, nw>>
SemiCount(c, sep) == stage = "head" /\ Go(sep \o <<EQ, EQ>> \o sep \o c \o sep \o <<50>> \o sep \o <<EQ>>, "text") /\ UNCHANGED <<parts, nw>>
Short(sep) == stage = "head" /\ Go(sep \o <<EQ>>, "text") /\ UNCHANGED <<parts, nw>>
ShortCol(sep) == stage = "head" /\ Go(sep \o COL \o sep \o <<49>> \o sep \o <<EQ>>, "text") /\ UNCHANGED <<parts, nw>>
ShortCount(sep) == stage = "head" /\ Go(sep \o <<49, 48, 48, 48, 49>> \o sep \o <<EQ>>, "text") /\ UNCHANGED <<parts, nw>>
Mini == stage = "head" /\ Go(<<>>, "mini") /\ UNCHANGED <<parts, nw>>
Word(w, sep) ==
    /\ stage \in {"text", "mini"} /\ nw < MaxWords
    \* In the shortest form the first word must not look like a date-time group.
    /\ stage = "mini" /\ nw = 0 => w[1] \notin Digits
    /\ stage = "mini" => \A j \in 1..Len(w) : w[j] # EQ
    /\ Go(sep \o w, stage)
    /\ parts' = [parts EXCEPT !.text = (IF nw = 0 THEN <<>> ELSE @ \o Norm(sep)) \o w]
    /\ nw' = nw + 1
End(x) ==
    /\ stage \in {"text", "mini"} /\ nw > 0
    \* Without end sign the text must not look as if it had one.
    /\ x = <<>> => ~StripEnd(Norm(raw)).found /\ raw[Len(raw)] # PLUS
    /\ Go(x, "done")
    /\ UNCHANGED <<parts, nw>>

NonEmpty == {s \in Seps : s # <<>> /\ \A j \in 1..Len(s) : s[j] # COMMA}
Next ==
    \/ \E c \in Calls : \E s \in Seps : To(c, s)
    \/ \E c \in Calls, d \in {<<68, 69>>, <<100, 101>>}, s \in NonEmpty : De(c, d, s)
    \/ \E t \in Dtgs, s \in NonEmpty : Dtg(t, s)
    \/ \E c \in Calls, s \in NonEmpty : Full(c, s) \/ FullBare(c, s) \/ Semi(c, s) \/ SemiCount(c, s)
    \/ \E s \in NonEmpty : Short(s) \/ ShortCol(s) \/ ShortCount(s)
    \/ Mini
    \/ \E w \in Words, s \in NonEmpty : Word(w, s)
    \/ \E x \in Ends : End(x)
Spec == Init /\ [][Next]_vars

R == Read(raw, Now)
Reads == stage = "done" =>
    IF parts.dtg # <<>> /\ ~DtgPossible(parts.dtg, Now) THEN R.v = "baddtg" ELSE
    R.v = "yes" /\ R.rcpt = parts.rcpt /\ R.from = parts.from /\ R.dtg = parts.dtg /\ R.text = parts.text
PrintIt == stage = "done" => PrintT("RADIOGRAM " \o ToJson(raw))
=============================================================================
