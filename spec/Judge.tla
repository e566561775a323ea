------------------------------- MODULE Judge -------------------------------
(* Judges records of independent operations: every event of every trace is *)
(* given to RulesOf, which says what rules it breaks.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT RulesOf(_)
D == JsonDeserialize(IOEnv.TRACE)
Traces == D.traces
TraceStr(r) == D.strs[r]
VARIABLES t, i, bad
Init == t \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Next ==
    /\ i < Len(Traces[t].events)
    /\ i' = i + 1
    /\ bad' = RulesOf(Traces[t].events[i + 1])
    /\ \A b \in bad' : PrintT(<<"BAD", t, i + 1, b[1], b[2]>>)
    /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, bad>>
View == <<t, i>>
=============================================================================
