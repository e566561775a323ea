------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* Exhaustive check of the codec: a machine that encodes a text character  *)
(* by character.  Invariants: reading what has been written by the legend  *)
(* gives the text back; a character takes at most four letters; the        *)
(* trigraph is reciprocal.  Texts may also be written in any legal,        *)
(* non-canonical way (redundant switches).                                 *)
(***************************************************************************)
EXTENDS Codec, RealTables, TLC, Json
CONSTANTS MaxLen, MaxNoise
VARIABLES text, letters, s, noise
vars == <<text, letters, s, noise>>

Init == text = <<>> /\ letters = <<>> /\ s = Fresh /\ noise = 0

Write(c) ==
    /\ Len(text) < MaxLen
    /\ text' = Append(text, c)
    /\ letters' = letters \o EncChar(s, c).letters
    /\ s' = EncChar(s, c).s
    /\ UNCHANGED noise

\* Redundant but legal: switch table, or toggle case, without need.
Switch ==
    /\ noise < MaxNoise /\ noise' = noise + 1
    /\ letters' = Append(letters, ZL(s.tb))
    /\ s' = [s EXCEPT !.tb = 3 - @]
    /\ UNCHANGED text
Toggle ==
    /\ noise < MaxNoise /\ noise' = noise + 1
    /\ s.tb = 2
    /\ letters' = Append(letters, XL)
    /\ s' = [s EXCEPT !.sh = ~@]
    /\ UNCHANGED text

Next == (\E c \in Alphabet : Write(c)) \/ Switch \/ Toggle
Spec == Init /\ [][Next]_vars

RoundTrip == ReadPlain(letters) = text
Bounded == Len(letters) <= MaxCharLetters * Len(text) + noise
OnlyLetters == \A j \in 1..Len(letters) : letters[j] \in Letters
NoControlOfOthers == \A j \in 1..Len(text) : text[j] \in Alphabet
PadHarmless == ReadPlain(letters \o <<ZL(s.tb), ZL(3 - s.tb), ZL(s.tb)>>) = text
Reciprocal == \A x, y \in Letters : /\ Tri(x, y) \in Letters
                                    /\ Tri(x, y) = Tri(y, x)
                                    /\ Tri(x, Tri(x, y)) = y
ASSUME Reciprocal

\* In simulation: print long letter sequences for replay into the code.
PrintLetters == (Len(text) = MaxLen) => PrintT("LETTERS " \o ToJson(letters))
=============================================================================
