----------------------------- MODULE CrandTrace -----------------------------
(***************************************************************************)
(* Judges what the random functions did with an instrumented source (C23): *)
(* the results must be such as MCCrand allows.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Judge
Rule(holds, prop, what) == IF holds THEN {} ELSE {<<prop, what>>}
SetOf(s) == {s[j] : j \in 1..Len(s)}

\* Many callers at once. words: the numbers of the source's words in what each
\* call returned, -1 when it is not from the source.
ConcurrentRules(a, r) ==
    IF r.panic THEN {<<"C23", "concurrent calls crashed or hang">>} ELSE
    Rule(r.overlaps = 0, "C23", "two goroutines were inside the random source at once")
    \cup Rule(Cardinality(SetOf(r.words)) = Len(r.words) \/ -1 \in SetOf(r.words), "C23", "the same random bytes were given to two callers")
    \cup Rule(\A j \in 1..Len(r.words) : r.words[j] >= 1 /\ r.words[j] <= r.issued, "C23", "a value was not made from bytes of the source")
    \cup Rule(Len(r.words) = a.expect, "C23", "concurrent calls lost results")

\* One call. given: what the source gave during the call; outs: the value
\* returned as bytes, in either byte order; keep: bits that count in the first byte.
OneRules(a, r) ==
    IF r.panic THEN {<<"C23", "a random function crashed although the source works">>} ELSE
    Rule(~r.err, "C23", "a random function failed although the source works")
    \cup Rule(r.n = a.len, "C23", "a random function does not report the whole buffer")
    \cup Rule(\E j \in 1..Len(r.outs) : r.outs[j] = r.given, "C23", "a buffer is not filled with bytes of the source")

\* The source fails during the call.
FailRules(a, r) ==
    Rule(r.outcome # "hang" /\ r.after # "hang", "C23", "a random function hangs after the source failed")
    \cup Rule(~r.failed \/ r.outcome # "ok", "C23", "a failing random source is not reported")
    \cup Rule(r.outcome = "exit" \/ r.after # "bad", "C23", "the random functions do not work any more after the source failed")

\* The same source gives the same value, another source another one.
SourceRules(a, r) ==
    IF r.panic THEN {<<"C23", "a random function crashed although the source works">>} ELSE
    Rule(r.x = r.y, "C23", "a value depends on something else than the source")
    \cup Rule(r.x # r.z, "C23", "values do not depend on the source")
    \cup Rule(r.used * 8 >= a.bits, "C23", "values are made from too few bytes of the source")

\* Draws from a range, counted in equally probable bins.
RangeRules(a, r) ==
    IF r.panic THEN {<<"C23", "a random function crashed although the source works">>} ELSE
    Rule(r.inrange, "C23", "a random number is outside its range")
    \cup LET e == a.draws \div Len(r.counts) IN
         Rule(\A j \in 1..Len(r.counts) : (r.counts[j] - e) * (r.counts[j] - e) <= 49 * e, "C23", "random numbers are biased")

CrandRules(e) ==
    CASE e.op = "concurrent" -> ConcurrentRules(e.a, e.r)
      [] e.op = "one" -> OneRules(e.a, e.r)
      [] e.op = "fail" -> FailRules(e.a, e.r)
      [] e.op = "source" -> SourceRules(e.a, e.r)
      [] e.op = "range" -> RangeRules(e.a, e.r)
=============================================================================
