------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The pen-and-paper cipher of Krypto431: the DIANA trigraph, the two      *)
(* character tables of the coding legend, the encoder and the decoder      *)
(* (including key changes).  Everything is parameterised by the size of    *)
(* the alphabet and the tables, so that the same definitions are checked   *)
(* exhaustively with a toy alphabet and used with the real 26 letter       *)
(* tables to judge traffic produced by the implementation.                 *)
(*                                                                         *)
(* Letters and characters are code points.  Letters are Base..Base+N-1.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS N,        \* number of letters in the alphabet (26)
          CT1,      \* primary table, a sequence of N symbols
          CT2       \* secondary table, a sequence of N symbols

\* Control symbols in the tables.
SwitchTable == -1   \* Z
ToggleBinary == -2  \* W, not supported by any version of the program
ToggleCase == -3    \* X
ChangeKey == -4     \* Y, the id of the next key follows

Base == 65
CT == <<CT1, CT2>>
Letters == Base .. Base + N - 1

(* DIANA: letters are numbered from 0, the third letter is (N-1-x-y) mod N. *)
Tri(x, y) == Base + ((N - 1 - (x - Base) - (y - Base)) % N)

Cased(c) == c \in 65..90 \/ c \in {196, 197, 214}
Lowered(c) == c \in 97..122 \/ c \in {228, 229, 246}
Lower(c) == IF Cased(c) THEN c + 32 ELSE c
Upper(c) == IF Lowered(c) THEN c - 32 ELSE c

TableSymbols == {CT1[j] : j \in 1..N} \cup {CT2[j] : j \in 1..N}
Plain == {c \in TableSymbols : c >= 0}
Alphabet == Plain \cup {Lower(c) : c \in Plain}
Supported(text) == \A j \in 1..Len(text) : text[j] \in Alphabet

LetterAt(j) == Base + j - 1
First(table, sym) == CHOOSE j \in 1..N : table[j] = sym /\ \A k \in 1..(j-1) : table[k] # sym
Has(table, sym) == \E j \in 1..N : table[j] = sym
\* Where each character is: its table and letter (the first that has it).
Where == [c \in Plain |-> IF Has(CT1, c) THEN <<1, LetterAt(First(CT1, c))>>
                                         ELSE <<2, LetterAt(First(CT2, c))>>]
\* The letters that mean "switch table" in each table, and the controls of CT2.
ZLs == <<LetterAt(First(CT1, SwitchTable)), LetterAt(First(CT2, SwitchTable))>>
ZL(tb) == ZLs[tb]
XL == LetterAt(First(CT2, ToggleCase))
YL == LetterAt(First(CT2, ChangeKey))

---------------------------------------------------------------------------
(* Encoder: what one character becomes in a given state.  The sequence is  *)
(* the canonical (shortest) one; partners may legally use longer ones.     *)

Fresh == [tb |-> 1, sh |-> FALSE]

NeedsCase(s, c) == (Cased(c) /\ s.sh) \/ (Lowered(c) /\ ~s.sh)

EncChar(s, c) ==
    LET w   == Where[Upper(c)]
        nc  == NeedsCase(s, c)
        pre == IF nc THEN (IF s.tb = 1 THEN <<ZL(1)>> ELSE <<>>) \o <<XL>>
                     ELSE <<>>
        tb1 == IF nc THEN 2 ELSE s.tb
        sw  == IF tb1 # w[1] THEN <<ZL(tb1)>> ELSE <<>>
    IN  [letters |-> pre \o sw \o <<w[2]>>,
         s |-> [tb |-> w[1], sh |-> IF nc THEN ~s.sh ELSE s.sh]]

\* The most letters one character can take (switch, case, switch, letter).
MaxCharLetters == 4

KeyChangeLetters(s, id) ==
    (IF s.tb = 1 THEN <<ZL(1)>> ELSE <<>>) \o <<YL>> \o id

---------------------------------------------------------------------------
(* Decoder over traffic enciphered with a chain of keys.                   *)
(*   keyOf(id) is the key material for a key id (a sequence of letters),   *)
(*   or <<>> when the reader does not have that key.                       *)
(* Result: out - the text; chain - ids of the keys used; stat - "ok" or    *)
(* why reading stopped; pending - TRUE if traffic ended inside a key id.   *)

DecStart(id, keyOf(_)) ==
    [tb |-> 1, sh |-> FALSE, inkey |-> FALSE, nk |-> <<>>,
     runes |-> keyOf(id), ki |-> 1, out |-> <<>>, chain |-> <<id>>,
     stat |-> IF keyOf(id) = <<>> THEN "nokey" ELSE "ok"]

DecStep(a, c, gs, keyOf(_)) ==
    IF a.stat # "ok" THEN a
    ELSE IF c \notin Letters THEN [a EXCEPT !.stat = "letter"]
    ELSE IF a.ki > Len(a.runes) THEN [a EXCEPT !.stat = "short"]
    ELSE
    LET l == Tri(a.runes[a.ki], c)
        b == [a EXCEPT !.ki = @ + 1]
    IN
    IF a.inkey THEN
        LET nk == Append(a.nk, l) IN
        IF Len(nk) < gs THEN [b EXCEPT !.nk = nk]
        ELSE IF keyOf(nk) = <<>> THEN [b EXCEPT !.stat = "nokey", !.nk = nk]
        ELSE [b EXCEPT !.inkey = FALSE, !.nk = <<>>, !.tb = 1, !.sh = FALSE,
                       !.runes = keyOf(nk), !.ki = 1, !.chain = Append(@, nk)]
    ELSE
        LET sym == CT[a.tb][l - Base + 1] IN
        CASE sym = SwitchTable  -> [b EXCEPT !.tb = 3 - @]
          [] sym = ToggleCase   -> [b EXCEPT !.sh = ~@]
          [] sym = ChangeKey    -> [b EXCEPT !.inkey = TRUE]
          [] sym = ToggleBinary -> [b EXCEPT !.stat = "bin"]
          [] OTHER -> [b EXCEPT !.out = Append(@, IF a.sh THEN Lower(sym) ELSE sym)]

Decode(id, ct, gs, keyOf(_)) ==
    LET step(a, c) == DecStep(a, c, gs, keyOf)
        r == FoldLeft(step, DecStart(id, keyOf), ct)
    IN  [out |-> r.out, chain |-> r.chain, stat |-> r.stat, pending |-> r.inkey]

---------------------------------------------------------------------------
(* Reading plain (not enciphered) letters by the legend, without keys.     *)
PlainStep(a, l) ==
    LET sym == CT[a.tb][l - Base + 1] IN
    CASE sym = SwitchTable -> [a EXCEPT !.tb = 3 - @]
      [] sym = ToggleCase -> [a EXCEPT !.sh = ~@]
      [] sym \in {ChangeKey, ToggleBinary} -> a
      [] OTHER -> [a EXCEPT !.out = Append(@, IF a.sh THEN Lower(sym) ELSE sym)]
ReadPlain(letters) ==
    FoldLeft(PlainStep, [tb |-> 1, sh |-> FALSE, out |-> <<>>], letters).out

EncStep(a, c) == LET e == EncChar(a.s, c) IN
    [s |-> e.s, letters |-> a.letters \o e.letters]
EncPlain(text) == FoldLeft(EncStep, [s |-> Fresh, letters |-> <<>>], text).letters

---------------------------------------------------------------------------
(* A conservative count of how many keys of length L a text needs: a key   *)
(* is changed as soon as a character of maximal size could leave no room   *)
(* for the key change.  Any sensible encoder manages with this many.       *)
NeedStep(a, c, L, gs) ==
    LET a1 == IF a.used + MaxCharLetters > L - gs - 2
              THEN [s |-> Fresh, used |-> 0, keys |-> a.keys + 1] ELSE a
        e  == EncChar(a1.s, c)
    IN  [s |-> e.s, used |-> a1.used + Len(e.letters), keys |-> a1.keys]
NeedKeys(text, L, gs) ==
    LET step(a, c) == NeedStep(a, c, L, gs)
    IN  FoldLeft(step, [s |-> Fresh, used |-> 0, keys |-> 1], text).keys
\* Below this length a key can not carry one character and a key change.
UsableLength(L, gs) == L >= gs + 2 + MaxCharLetters

---------------------------------------------------------------------------
(* The reference encoder: encode character by character, change key before *)
(* a character after which no room is left for a key change, and pad the   *)
(* last part with table switches to whole groups over all parts.  The key  *)
(* sequence ks is [id, runes]*; result [ok, ct, used].                     *)
PartStep(a, c, last, gs, ks, lookahead) ==
    IF a.n = 0 THEN a ELSE
    LET cap  == Len(ks[a.n].runes)
        \* Room for a key change in the worst case must remain before a character.
        full == Len(a.cur) >= cap - gs - 2
        e    == EncChar(a.s, c)
        ovf  == /\ lookahead /\ ~last /\ Len(a.cur) > 0
                /\ Len(a.cur) + Len(e.letters) + (IF e.s.tb = 2 THEN 1 ELSE 2) + gs > cap
    IN  IF full \/ ovf
        THEN IF a.n + 1 > Len(ks) THEN [a EXCEPT !.n = 0]
             ELSE LET e2 == EncChar(Fresh, c) IN
                  [n |-> a.n + 1, s |-> e2.s, cur |-> e2.letters,
                   parts |-> Append(a.parts, a.cur \o KeyChangeLetters(a.s, ks[a.n + 1].id))]
        ELSE [a EXCEPT !.s = e.s, !.cur = @ \o e.letters]

RECURSIVE EncodeFrom(_, _, _, _, _, _)
EncodeFrom(a, text, j, gs, ks, lookahead) ==
    IF j > Len(text) THEN a
    ELSE EncodeFrom(PartStep(a, text[j], j = Len(text), gs, ks, lookahead),
                    text, j + 1, gs, ks, lookahead)

SumLen(parts) == FoldLeft(LAMBDA n, p : n + Len(p), 0, parts)

Encipher(text, gs, ks, lookahead) ==
    LET a == IF ks = <<>> THEN [n |-> 0, parts |-> <<>>]
             ELSE EncodeFrom([n |-> 1, s |-> Fresh, cur |-> <<>>, parts |-> <<>>],
                             text, 1, gs, ks, lookahead)
    IN  IF a.n = 0 THEN [ok |-> FALSE, ct |-> <<>>, used |-> 0]
        ELSE LET tot  == SumLen(a.parts) + Len(a.cur)
                 npad == (gs - (tot % gs)) % gs
                 \* In either table the last letter switches table.
                 pad  == [j \in 1..npad |-> ZL(1)]
                 all  == Append(a.parts, a.cur \o pad)
             IN  IF \E p \in 1..Len(all) : Len(all[p]) > Len(ks[p].runes)
                 THEN [ok |-> FALSE, ct |-> <<>>, used |-> 0]
                 ELSE [ok |-> TRUE, used |-> Len(all),
                       ct |-> FoldLeft(LAMBDA x, y : x \o y, <<>>,
                              [p \in 1..Len(all) |->
                                 [q \in 1..Len(all[p]) |-> Tri(ks[p].runes[q], all[p][q])]])]
=============================================================================
