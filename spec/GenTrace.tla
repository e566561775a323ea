------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Judges generated keys (C15): single generations by the rules of a       *)
(* station, many letters by how often they come, and what becomes of a     *)
(* given stream of the random source.                                      *)
(***************************************************************************)
EXTENDS StationRules, RealTables, Radiogram, Judge

RefS(s) == [s EXCEPT !.keys = [j \in 1..Len(s.keys) |-> D.keys[s.keys[j]]], !.msgs = [j \in 1..Len(s.msgs) |-> D.msgs[s.msgs[j]]]]
State(n) == RefS(D.states[n])

\* The call-signs named by the arguments: split at commas and spaces, upper case.
Named(args) == UNION {SetOf(Tokens(Up(Str(args[j])))) : j \in 1..Len(args)}
Wanted(args, own) == Named(args) \ {Up(own)}

ExpiryRight(a, r, k) ==
    IF a.exp = 0 THEN k.expm \in (r.now0[3] + Minutes365 - 1) .. (r.now1[3] + Minutes365 + 1)
    ELSE LET tx == Up(Str(a.exp)) now == [y |-> r.now0[1], m |-> r.now0[2]] IN
         k.expm = DtgMinutes(tx, now)
SameMonth(r) == r.now0[1] = r.now1[1] /\ r.now0[2] = r.now1[2]
Doubtful(a, r) == a.exp # 0 /\ (Swedish(Up(Str(a.exp))) \/ ~SameMonth(r) \/ (Len(Str(a.exp)) < 12 /\ (r.now0[4] \in {1, 2} \/ r.now0[4] >= 27)))
Valid(a, r) == a.exp = 0 \/ (LET tx == Up(Str(a.exp)) IN DtgShape(tx) /\ ~Swedish(tx) /\ DtgPossible(tx, [y |-> r.now0[1], m |-> r.now0[2]]))

OneRules(a, r) ==
    LET pre == State(a.pre) post == State(r.post)
        want == Wanted(a.args, Str(pre.call))
        first == Len(pre.keys) + 1
    IN
    IF r.panic THEN {<<"C15", "generating keys crashed">>}
    ELSE IF r.err THEN
        Rule(~Valid(a, r) \/ Doubtful(a, r), "C15", "generating keys failed")
        \cup Unchanged(pre, post, "C15", "refused key generation changed the store")
    ELSE
        Rule(Valid(a, r) \/ Doubtful(a, r), "C15", "an invalid expiry was accepted")
        \cup Rule(Len(post.keys) = Len(pre.keys) + a.n, "C15", "wrong number of new keys")
        \cup Rule(Len(post.keys) >= Len(pre.keys) /\ SubSeq(post.keys, 1, Len(pre.keys)) = pre.keys /\ post.msgs = pre.msgs /\ SameSettings(pre, post),
                  "C13", "generating keys changed something else")
        \cup UNION {LET k == post.keys[j]
                        id == Str(k.id)
                        runes == Str(k.runes)
                    IN  Rule(Len(id) = pre.gs /\ AllIn(id, Letters), "C15", "a new key has a malformed id")
                        \cup Rule(\A x \in 1..(j - 1) : post.keys[x].id # k.id, "C15", "a new key has the id of another key")
                        \cup Rule(Len(runes) = ((pre.kl + pre.gs - 1) \div pre.gs) * pre.gs, "C15", "a new key has the wrong length")
                        \cup Rule(AllIn(runes, Letters), "C15", "key material is not letters A-Z")
                        \cup Rule(\A x \in 1..(j - 1) : post.keys[x].runes # k.runes, "C15", "two keys have the same key material")
                        \cup Rule(~k.used /\ ~k.comp, "C15", "a new key is used or compromised")
                        \cup Rule(Str(k.cmt) = <<>>, "C15", "a new key has a comment")
                        \cup Rule({Str(k.keepers[x]) : x \in 1..Len(k.keepers)} = want, "C15", "a new key has the wrong keepers")
                        \cup Rule(Doubtful(a, r) \/ ~Valid(a, r) \/ ExpiryRight(a, r, k), "C15", "a new key expires at the wrong time")
                    : j \in first .. Len(post.keys)}

\* How often things came that must be equally probable. kind tells what was counted.
Near(count, e) == (count - e) * (count - e) <= 49 * (e + 1)
CountRules(a, r) ==
    LET total == FoldLeft(LAMBDA x, y : x + y, 0, r.counts) IN
    IF r.panic THEN {<<"C15", "generating keys crashed">>} ELSE
    Rule(\A j \in 1..Len(r.counts) : Near(r.counts[j], total \div Len(r.counts)), "C15", "letters of keys are not equally probable")

\* Pairs of letters of keys that should be unrelated: how many were equal.
PairRules(a, r) ==
    IF r.panic THEN {<<"C15", "generating keys crashed">>} ELSE
    Rule(\A j \in 1..Len(r.equal) : Near(r.equal[j], r.pairs[j] \div 26), "C15", "letters of keys are related to each other")

\* The same stream of random bytes gives the same letters, another stream others,
\* and there are at least as many random bits as the letters need (4.7 per letter).
StreamRules(a, r) ==
    IF r.panic THEN {<<"C15", "generating keys crashed">>} ELSE
    Rule(r.x = r.y, "C15", "keys depend on something else than the random source")
    \cup Rule(r.x # r.z, "C15", "keys do not depend on the random source")
    \cup Rule(r.used * 80 >= 47 * r.letters, "C15", "keys are made from too few bytes of the random source")

\* When the random source fails, no key is made of anything else.
SourceFailRules(a, r) == Rule(r.failed => r.panic \/ r.n = 0, "C15", "keys were generated although the random source fails")

GenRules(e) ==
    CASE e.op = "one" -> OneRules(e.a, e.r)
      [] e.op = "count" -> CountRules(e.a, e.r)
      [] e.op = "pair" -> PairRules(e.a, e.r)
      [] e.op = "stream" -> StreamRules(e.a, e.r)
      [] e.op = "fail" -> SourceFailRules(e.a, e.r)
=============================================================================
