------------------------------ MODULE WipeTrace ------------------------------
(***************************************************************************)
(* Histories of wiping, deleting and closing in the code (C16), judged by  *)
(* the rules of MCWipe: objects that are gone have no cell left with what  *)
(* it held, the others still have all.                                     *)
(* The same history was run several times with different random sources.   *)
(* r.mem: for every object <<object, field, cells, cells that hold what    *)
(* they held in all runs, cells that hold it not in some run>>.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Traces == D.traces
VARIABLES t, i, gone, bad
Rule(holds, prop, what) == IF holds THEN {} ELSE {<<prop, what>>}
SetOf(s) == {s[j] : j \in 1..Len(s)}
Own == 0
Events == Traces[t].events
\* Objects that the operation removes.
Gone(e) == CASE e.op = "delete" -> gone \cup SetOf(e.a.objs)
             [] e.op = "wipe" -> gone \cup {e.a.obj}
             [] e.op = "close" -> gone \cup {Own} \cup SetOf(e.a.objs)
             [] OTHER -> gone
MemRules(e) ==
    LET g == Gone(e) m == e.r.mem IN
    Rule(~e.r.panic, "C16", "wiping crashed")
    \cup Rule(\A x \in 1..Len(m) : m[x].o \in g => m[x].kept = 0, "C16",
              IF e.op = "close" THEN "memory still holds its content after closing the instance"
              ELSE IF e.op = "delete" THEN "memory still holds its content after deleting"
              ELSE "memory still holds its content after wiping")
    \cup Rule(\A x \in 1..Len(m) : m[x].o \notin g => m[x].lost = 0, "C13", "wiping or deleting destroyed something else")
SliceRules(e) ==
    Rule(~e.r.panic, "C16", "wiping crashed")
    \cup Rule(e.r.kept = 0, "C16", "memory still holds its content after wiping")
    \cup Rule(e.r.spill = 0, "C13", "wiping or deleting destroyed something else")
PasswordRules(e) ==
    Rule(~e.r.panic, "C16", "deriving a key crashed")
    \cup Rule(e.r.kept = 0, "C16", "a password is left in memory after deriving a key")
FailRules(e) ==
    Rule(~e.r.panic, "C04", "a send crashed")
    \cup Rule(e.r.err => e.r.ct = 0 /\ (e.r.kid = 0 \/ e.a.named), "C16", "a failed send leaves its encoding on the message")
Rules(e) == CASE e.op \in {"delete", "wipe", "close", "other"} -> MemRules(e)
              [] e.op = "slice" -> SliceRules(e)
              [] e.op = "password" -> PasswordRules(e)
              [] e.op = "fail" -> FailRules(e)
Init == t \in 1..Len(Traces) /\ i = 0 /\ gone = {} /\ bad = {}
Next ==
    /\ i < Len(Events)
    /\ i' = i + 1
    /\ LET e == Events[i + 1] IN
       /\ bad' = Rules(e)
       /\ gone' = Gone(e)
       /\ \A b \in bad' : PrintT(<<"BAD", t, i + 1, b[1], b[2]>>)
    /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, gone, bad>>
View == <<t, i>>
=============================================================================
