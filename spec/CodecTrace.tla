----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Judges single encipherments and decipherments, the trigraph functions   *)
(* and the printed tables against Codec (C01, C06, C07).                   *)
(***************************************************************************)
EXTENDS StationRules, RealTables, Judge

\* keys: a sequence of [id, runes] (references).
Material(keys, id) ==
    IF \E j \in 1..Len(keys) : Str(keys[j].id) = id
    THEN Str(keys[CHOOSE j \in 1..Len(keys) : Str(keys[j].id) = id].runes) ELSE <<>>
Reads(keys, gs, id, ct) == LET of(x) == Material(keys, x) IN Decode(id, ct, gs, of)

\* Enciphering a text with fresh keys that the recipients keep, and
\* deciphering it at a station with the same keys.
RoundTripRules(a, r) ==
    LET text == Str(a.text)
        lens == {Len(Str(a.keys[j].runes)) : j \in 1..Len(a.keys)}
        must == text # <<>> /\ Supported(text) /\ UsableLength(Min(lens), a.gs)
                /\ NeedKeys(text, Min(lens), a.gs) <= Len(a.keys)
    IN
    IF r.panic THEN {<<"C01", "enciphering or deciphering crashed">>, <<"C04", "a send crashed">>}
    ELSE IF r.err THEN Rule(~must, "C01", "refused although there are enough keys for the text")
                       \cup Rule(\A j \in 1..Len(r.used) : ~r.used[j], "C04", "a failed send marked a key used")
                       \cup Rule(Str(r.ct) = <<>>, "C04", "a failed send left cipher text on the message")
    ELSE
    LET ct == Str(r.ct)
        d == Reads(a.keys, a.gs, Str(r.kid), ct)
    IN  Rule(ct # <<>> /\ \A j \in 1..Len(ct) : ct[j] \in Letters, "C01", "cipher text is not only letters A-Z")
        \cup Rule(Len(ct) % a.gs = 0, "C01", "cipher text is not whole groups")
        \cup Rule(Supported(text) /\ text # <<>>, "C01", "text with an unsupported character or no text was enciphered")
        \cup Rule(d.stat = "ok" /\ ~d.pending /\ d.out = text, "C06", "cipher text does not read as the text by the legend")
        \cup Rule(d.stat = "ok" /\ ~d.pending /\ d.out = text, "C01", "cipher text does not decipher to the text")
        \cup Rule(~r.berr /\ r.back = a.text, "C01", "the program does not decipher its own traffic to the same text")
        \cup Rule(r.kept = a.text, "C01", "enciphering changed the text of the message")
        \cup Rule(NoDup(d.chain), "C02", "a key is used for two parts of one message")
        \cup Rule(\A j \in 1..Len(a.keys) : r.used[j] = (Str(a.keys[j].id) \in SetOf(d.chain)), "C02", "not exactly the keys of the message are marked used")
        \cup Rule(\A j \in 1..Len(a.keys) : r.bused[j] = (Str(a.keys[j].id) \in SetOf(d.chain)), "C05", "deciphering did not mark exactly the keys of the message")

\* Deciphering traffic made by the driver or by TLC.
DecipherLettersRules(a, r) ==
    LET d == Reads(a.keys, a.gs, Str(a.kid), Str(a.ct))
        v == IF Len(Str(a.ct)) < a.gs THEN "no" ELSE Verdict(d)
        chain == SetOf(d.chain)
    IN
    IF r.panic THEN {<<"C06", "deciphering crashed">>, <<"C05", "deciphering crashed">>} ELSE
    Rule(v # "yes" \/ ~r.err, "C06", "traffic that follows the legend was refused")
    \cup Rule(v # "yes" \/ r.err \/ Str(r.out) = d.out, "C06", "deciphered text is not what the legend says")
    \cup Rule(v # "no" \/ r.err, "C06", "traffic that can not be read was deciphered")
    \cup Rule(v # "no" \/ r.err, "C05", "traffic that can not be read was deciphered")
    \cup Rule(~r.err \/ r.out = a.before, "C05", "the text was lost when deciphering failed")
    \cup Rule(~r.err \/ \A j \in 1..Len(r.used) : ~r.used[j], "C05", "failed deciphering marked a key used")
    \cup Rule(v # "yes" \/ r.err \/ \A j \in 1..Len(r.used) : r.used[j] = (Str(a.keys[j].id) \in chain), "C05",
              "deciphering did not mark exactly the keys of the traffic")

\* A row of results of a trigraph function: letter x with every y; -1: refused
\* without writing, -2: refused but something was written.
TrigraphRowRules(a, r) ==
    UNION {LET y == a.ys[j]
               both == a.x \in Letters /\ y \in Letters
           IN  Rule(both => r.row[j] = Tri(a.x, y), "C07", "wrong trigraph of two letters")
               \cup Rule(both \/ r.row[j] < 0, "C07", "input outside A-Z was accepted")
               \cup Rule(both \/ r.row[j] = -1, "C07", "refused input but wrote a result")
           : j \in 1..Len(a.ys)}
\* The zero key k of letter c makes c from c.
ZeroKeyRules(a, r) ==
    UNION {LET c == a.ys[j] IN
           Rule(c \in Letters => (r.row[j] \in Letters /\ Tri(r.row[j], c) = c), "C07", "wrong zero key")
           \cup Rule(c \in Letters \/ r.row[j] = -1, "C07", "zero key of something that is no letter")
           : j \in 1..Len(a.ys)}
NilRules(a, r) == Rule(~r.panic /\ r.err /\ ~r.wrote, "C07", "a nil argument was not refused")
StreamRules(a, r) ==
    LET good == a.idx >= 0 /\ a.idx < Len(a.key) /\ a.ch \in Letters /\ a.key[a.idx + 1] \in Letters
        \* The helper may ask for as much output as key before the index.
        sync == a.idx <= Len(a.out)
    IN  IF r.panic THEN {<<"C07", "the stream helper crashed">>}
        ELSE IF r.err THEN Rule(~(good /\ sync), "C07", "the stream helper refused valid input")
                           \cup Rule(r.out = a.out /\ r.idx = a.idx, "C07", "the stream helper refused but changed its arguments")
        ELSE Rule(good, "C07", "the stream helper accepted invalid input")
             \cup (IF good THEN Rule(r.out = Append(a.out, Tri(a.ch, a.key[a.idx + 1])), "C07", "the stream helper appended the wrong letter")
                                \cup Rule(r.idx = a.idx + 1, "C07", "the stream helper did not advance by one")
                   ELSE {})

\* The printed reciprocal table: a row of letters, then for every letter x the
\* pairs of y's column letter and the trigraph.
TableRules(a, r) ==
    LET words == r.lines IN
    Rule(Len(words) = 27 /\ Len(words[1]) = 26 /\ \A j \in 1..26 : Str(words[1][j]) = <<LetterAt(j)>>, "C07", "the header of the reciprocal table is wrong")
    \cup Rule(Len(words) = 27 /\ \A x \in 1..26 :
              Len(words[x + 1]) = 26 /\ \A y \in 1..26 : Str(words[x + 1][y]) = <<LetterAt(x), Tri(LetterAt(x), LetterAt(y)) + 32>>,
              "C07", "the reciprocal table is not the trigraph")

\* The printed legend, rows IDX, CT1 and CT2 by column.  > switch table,
\* currency sign: binary, up-down arrow: case, arrow: key.
Printed(sym) == CASE sym = SwitchTable -> 62 [] sym = ToggleBinary -> 164
                  [] sym = ToggleCase -> 8597 [] sym = ChangeKey -> 8594 [] OTHER -> sym
LegendRules(a, r) ==
    Rule(Len(r.idx) = N /\ Len(r.ct1) = N /\ Len(r.ct2) = N /\ \A j \in 1..N :
         /\ r.idx[j] = LetterAt(j)
         /\ r.ct1[j] = Printed(CT1[j])
         /\ r.ct2[j] = Printed(CT2[j]), "C06", "the printed coding legend is not the published one")

CodecRules(e) ==
    CASE e.op = "rt" -> RoundTripRules(e.a, e.r)
      [] e.op = "dec" -> DecipherLettersRules(e.a, e.r)
      [] e.op = "tri" -> TrigraphRowRules(e.a, e.r)
      [] e.op = "zero" -> ZeroKeyRules(e.a, e.r)
      [] e.op = "nil" -> NilRules(e.a, e.r)
      [] e.op = "stream" -> StreamRules(e.a, e.r)
      [] e.op = "table" -> TableRules(e.a, e.r)
      [] e.op = "legend" -> LegendRules(e.a, e.r)
=============================================================================
