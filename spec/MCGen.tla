------------------------------- MODULE MCGen -------------------------------
(***************************************************************************)
(* Generating keys from a random source of numbers 0..S-1: a number below  *)
(* the largest multiple of L gives a letter, others are drawn again (so    *)
(* that letters are equally probable). An id is drawn until no other key   *)
(* has it, then the letters of the key are drawn. Properties (C15): ids    *)
(* are unique, every letter of every key has its own number of the source, *)
(* keys are complete, and every letter is made by equally many numbers.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S, L, Gs, Kl, MaxKeys, MaxDraws, Mut
VARIABLES keys, cur, draws
vars == <<keys, cur, draws>>
\* A drawn letter is <<letter, number of the draw>>.
Whole == ((Kl + Gs - 1) \div Gs) * Gs
Idle == [st |-> "idle", id |-> <<>>, mat |-> <<>>]
Init == keys = <<>> /\ cur = Idle /\ draws = 0
Kept(s) == IF Mut = "modulo" THEN TRUE ELSE s < (S \div L) * L
Letter(s) == s % L
Text(x) == [j \in 1..Len(x) |-> x[j][1]]
Taken(id) == \E j \in 1..Len(keys) : Text(keys[j].id) = Text(id)
Start == cur.st = "idle" /\ Len(keys) < MaxKeys /\ cur' = [Idle EXCEPT !.st = "id"] /\ UNCHANGED <<keys, draws>>
Draw(s) ==
    /\ cur.st \in {"id", "mat"} /\ draws < MaxDraws
    /\ draws' = draws + 1
    /\ UNCHANGED keys
    /\ IF ~Kept(s) THEN UNCHANGED cur
       ELSE LET d == <<Letter(s), draws + 1>> IN
            IF cur.st = "id" THEN
                LET id == Append(cur.id, d) IN
                cur' = IF Len(id) < Gs THEN [cur EXCEPT !.id = id]
                       ELSE IF Mut # "nocheck" /\ Taken(id) THEN [cur EXCEPT !.id = <<>>]
                       ELSE [cur EXCEPT !.id = id, !.st = "mat", !.mat = IF Mut = "reuse" THEN id ELSE <<>>]
            ELSE LET m == Append(cur.mat, d) IN
                cur' = [cur EXCEPT !.mat = m, !.st = IF Len(m) < (IF Mut = "short" THEN Kl ELSE Whole) THEN "mat" ELSE "full"]
Finish == cur.st = "full" /\ keys' = Append(keys, [id |-> cur.id, mat |-> cur.mat]) /\ cur' = Idle /\ UNCHANGED draws
Next == Start \/ Finish \/ \E s \in 0..(S - 1) : Draw(s)
Spec == Init /\ [][Next]_vars

UniqueIds == \A i, j \in 1..Len(keys) : i # j => Text(keys[i].id) # Text(keys[j].id)
Complete == \A i \in 1..Len(keys) : Len(keys[i].id) = Gs /\ Len(keys[i].mat) = Whole
Drawn(k) == {k.id[j][2] : j \in 1..Len(k.id)} \cup {k.mat[j][2] : j \in 1..Len(k.mat)}
Fresh == /\ \A i \in 1..Len(keys) : Cardinality(Drawn(keys[i])) = Len(keys[i].id) + Len(keys[i].mat)
         /\ \A i, j \in 1..Len(keys) : i # j => Drawn(keys[i]) \cap Drawn(keys[j]) = {}
Makes(l) == Cardinality({s \in 0..(S - 1) : Kept(s) /\ Letter(s) = l})
Unbiased == draws >= 0 => \A l, m \in 0..(L - 1) : Makes(l) = Makes(m) /\ Makes(l) > 0
=============================================================================
