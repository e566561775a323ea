------------------------------ MODULE MCCipher ------------------------------
(***************************************************************************)
(* Exhaustive check of enciphering with a chain of keys, with the toy      *)
(* alphabet: every text up to MaxLen characters, written with every key    *)
(* length in Kls.  What is enciphered is whole groups, deciphers to the    *)
(* text with exactly the keys used, does not depend on what the keys are,  *)
(* and enciphering succeeds whenever NeedKeys says there are enough keys.  *)
(* Lookahead = FALSE is the encoder without the rule that a key is changed *)
(* before a character that leaves no room for the key change (a defect the *)
(* program had); EnoughKeys must notice it.                                *)
(***************************************************************************)
EXTENDS Codec, RealTables, TLC
CONSTANTS MaxLen, Kls, Gs, NKeys, Lookahead
VARIABLES text, kl, phase
vars == <<text, kl, phase>>

Id(j, g) == [x \in 1..g |-> Base + ((j + x) % N)]
Rune(j, x, v) == Base + ((v * (x * x + j * x) + j * j) % N)
Key(j, v) == [id |-> Id(j, Gs), runes |-> [x \in 1..kl |-> Rune(j, x, v)]]
Keys(v) == [j \in 1..NKeys |-> Key(j, v)]
Material(v, id) == IF \E j \in 1..NKeys : Id(j, Gs) = id
                   THEN Key(CHOOSE j \in 1..NKeys : Id(j, Gs) = id, v).runes ELSE <<>>

Init == text = <<>> /\ kl \in Kls /\ phase = 0
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
        /\ phase' = 1 - phase
        /\ UNCHANGED kl
Spec == Init /\ [][Next]_vars

E(v) == Encipher(text, Gs, Keys(v), Lookahead)
D(v) == LET of(id) == Material(v, id) IN Decode(Id(1, Gs), E(v).ct, Gs, of)

ReadsBack == text = <<>> \/ \A v \in 0..1 : E(v).ok =>
    LET d == D(v) IN
    /\ d.stat = "ok" /\ ~d.pending
    /\ d.out = text
    /\ d.chain = [j \in 1..E(v).used |-> Id(j, Gs)]
WholeGroups == \A v \in 0..1 : E(v).ok => /\ Len(E(v).ct) % Gs = 0
                                          /\ \A j \in 1..Len(E(v).ct) : E(v).ct[j] \in Letters
SameForAllKeys == E(0).ok = E(1).ok /\ (E(0).ok => Len(E(0).ct) = Len(E(1).ct) /\ E(0).used = E(1).used)
EnoughKeys == (text # <<>> /\ UsableLength(kl, Gs) /\ NeedKeys(text, kl, Gs) <= NKeys) => E(0).ok
=============================================================================
