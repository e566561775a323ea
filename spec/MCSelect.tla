------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* Selecting keys step by step, as a program does: every option is a       *)
(* filter, the filters are applied in any order to what is left. The       *)
(* result is what Select says, whatever the order; and the laws a user     *)
(* relies on hold. Mut: wrong filters.                                     *)
(***************************************************************************)
EXTENDS Select, Sequences, TLC, Json
CONSTANTS Calls, MaxIds, Mut
VARIABLES o, todo, left
vars == <<o, todo, left>>
NoId == "none"
Now == 1000000
Exps == {Now - 2880, Now - 120, Now + 120, Now + 1440 + 120, Now + 30 * 1440 + 120}
Attrs == [keepers : SUBSET Calls, used : BOOLEAN, comp : BOOLEAN, expm : Exps]
Keys == {[id |-> a, keepers |-> a.keepers, used |-> a.used, comp |-> a.comp, expm |-> a.expm] : a \in Attrs}
\* Two ids are enough to be named.
Named == {[keepers |-> {}, used |-> TRUE, comp |-> TRUE, expm |-> Now - 120], [keepers |-> Calls, used |-> FALSE, comp |-> FALSE, expm |-> Now + 30 * 1440 + 120]}
Options == [all : BOOLEAN, ids : {S \in SUBSET Named : Cardinality(S) <= MaxIds}, keepers : SUBSET (Calls \cup {"X"}), or : BOOLEAN,
            used : BOOLEAN, unused : BOOLEAN, comp : BOOLEAN, expired : BOOLEAN, invalid : BOOLEAN, valid : {-1, 0, 1, 30}]
Filters == {"keepers", "used", "unused", "comp", "expired", "invalid", "valid"}

Init == o \in Options /\ todo = (IF o.all THEN {} ELSE IF o.ids # {} /\ Mut # "idsmore" THEN {"ids"} ELSE IF Mut = "idsmore" /\ o.ids # {} THEN Filters \cup {"ids"} ELSE Filters) /\ left = Keys
Apply(f) ==
    LET pass(k) == CASE f = "ids" -> k.id \in o.ids
                     [] f = "keepers" -> IF o.keepers = {} THEN TRUE
                                         ELSE IF o.or THEN \E c \in o.keepers : c \in k.keepers
                                         ELSE IF Mut = "count" THEN Cardinality(o.keepers \cap k.keepers) >= Cardinality(k.keepers) /\ k.keepers # {}
                                         ELSE \A c \in o.keepers : c \in k.keepers
                     [] f = "used" -> ~o.used \/ k.used
                     [] f = "unused" -> ~o.unused \/ ~k.used
                     [] f = "comp" -> ~o.comp \/ k.comp
                     [] f = "expired" -> ~o.expired \/ Now > k.expm
                     [] f = "invalid" -> ~o.invalid \/ (IF Mut = "both" THEN k.comp /\ Now > k.expm ELSE k.comp \/ Now > k.expm)
                     [] f = "valid" -> (IF Mut = "zero" THEN o.valid <= 0 ELSE o.valid = -1) \/ (Now + o.valid * 1440 < k.expm /\ (Mut = "validcomp" \/ ~k.comp))
    IN  left' = {k \in left : pass(k)}
Next == \E f \in todo : todo' = todo \ {f} /\ Apply(f) /\ UNCHANGED o
Spec == Init /\ [][Next]_vars

Selected(p) == {k \in Keys : SelectsKey(p, k, Now)}
StagesAgree == todo = {} => left = Selected(o)
\* Laws, for options without ids and --all.
Plain == ~o.all /\ o.ids = {}
Laws == (todo # {} /\ left = Keys /\ Plain) =>
    LET S(p) == Selected(p) IN
    /\ S(o) \subseteq S([o EXCEPT !.keepers = {}])
    /\ S([o EXCEPT !.used = TRUE]) \cap S([o EXCEPT !.unused = TRUE]) = {}
    /\ ~o.used /\ ~o.unused => S(o) = S([o EXCEPT !.used = TRUE]) \cup S([o EXCEPT !.unused = TRUE])
    /\ ~o.invalid /\ ~o.comp /\ ~o.expired => S([o EXCEPT !.invalid = TRUE]) = S([o EXCEPT !.comp = TRUE]) \cup S([o EXCEPT !.expired = TRUE])
    /\ o.valid >= 0 => S([o EXCEPT !.invalid = TRUE]) = {} /\ \A k \in S(o) : ~k.comp /\ ~Expired(k, Now)
    /\ S([o EXCEPT !.or = FALSE]) \subseteq S([o EXCEPT !.or = TRUE])
    /\ o.keepers = {} => S([o EXCEPT !.or = FALSE]) = S([o EXCEPT !.or = TRUE])
    /\ S([o EXCEPT !.all = TRUE]) = Keys
Nothing == [all |-> FALSE, ids |-> {}, keepers |-> {}, or |-> FALSE, used |-> FALSE, unused |-> FALSE, comp |-> FALSE, expired |-> FALSE, invalid |-> FALSE, valid |-> -1]
WithoutOptionsAll == o = Nothing => Selected(o) = Keys

---------------------------------------------------------------------------
\* In simulation: options to try on the program. ids: how many keys to name.
Pick(S) == RandomElement(S)
Rare(n) == \E x \in {RandomElement(1..n)} : x = 1
InitSim == /\ \E kp \in {Pick({{}, {}, {"AA"}, {"BB"}, {"AA", "BB"}, {"AA", "BB", "CC"}, {"CC"}, {"AA", "X"}})}, v \in {Pick({-1, -1, -1, 0, 1, 30})}, n \in {Pick({0, 0, 0, 0, 0, 1, 2})} :
                o = [all |-> Rare(12), ids |-> n, keepers |-> kp, or |-> Rare(2), used |-> Rare(4), unused |-> Rare(4),
                     comp |-> Rare(5), expired |-> Rare(5), invalid |-> Rare(5), valid |-> v]
           /\ todo = {} /\ left = {}
NextSim == /\ \E kp \in {Pick({{}, {}, {"AA"}, {"BB"}, {"AA", "BB"}, {"AA", "BB", "CC"}, {"CC"}, {"AA", "X"}})}, v \in {Pick({-1, -1, -1, 0, 1, 30})}, n \in {Pick({0, 0, 0, 0, 0, 1, 2})} :
                o' = [all |-> Rare(12), ids |-> n, keepers |-> kp, or |-> Rare(2), used |-> Rare(4), unused |-> Rare(4),
                     comp |-> Rare(5), expired |-> Rare(5), invalid |-> Rare(5), valid |-> v]
           /\ UNCHANGED <<todo, left>>
Show == PrintT("SELECT " \o ToJson(o))
=============================================================================
