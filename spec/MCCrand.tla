------------------------------ MODULE MCCrand ------------------------------
(***************************************************************************)
(* Callers of the random functions share one cryptographic source that is  *)
(* not safe for concurrent use. A call takes the lock, reads the source    *)
(* until its buffer is full or the source fails, gives the lock back and   *)
(* returns. The source may give less than asked for. Bytes are numbered.   *)
(* Properties (C23): one caller at a time in the source, no byte handed    *)
(* out twice, a call that succeeds has filled its buffer with bytes from   *)
(* the source, a failure is reported, and nobody is left waiting.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Want, MaxCalls, MaxFails, Mut
VARIABLES pc, lock, src, buf, got, calls, fails
vars == <<pc, lock, src, buf, got, calls, fails>>
\* pc: idle, waiting, ready (has the lock), reading (inside the source), leaving
\* src: next byte; base[p]: what a reader inside the source has seen of it.
Init ==
    /\ pc = [p \in Procs |-> "idle"] /\ lock = 0
    /\ src = [next |-> 1, seen |-> [p \in Procs |-> 0]]
    /\ buf = [p \in Procs |-> <<>>]
    /\ got = <<>>                       \* results: [ok, bytes]
    /\ calls = 0 /\ fails = 0
Begin(p) ==
    /\ pc[p] = "idle" /\ calls < MaxCalls
    /\ calls' = calls + 1
    /\ pc' = [pc EXCEPT ![p] = "waiting"]
    /\ buf' = [buf EXCEPT ![p] = <<>>]
    /\ UNCHANGED <<lock, src, got, fails>>
Lock(p) ==
    /\ pc[p] = "waiting"
    /\ IF Mut = "nolock" THEN UNCHANGED lock ELSE lock = 0 /\ lock' = p
    /\ pc' = [pc EXCEPT ![p] = "ready"]
    /\ UNCHANGED <<src, buf, got, calls, fails>>
\* The source is entered: it looks at where it is ...
Enter(p) ==
    /\ pc[p] = "ready" /\ Len(buf[p]) < Want
    /\ src' = [src EXCEPT !.seen[p] = src.next]
    /\ pc' = [pc EXCEPT ![p] = "reading"]
    /\ UNCHANGED <<lock, buf, got, calls, fails>>
\* ... and gives n bytes from there.
Give(p, n) ==
    /\ pc[p] = "reading" /\ n \in 1..(Want - Len(buf[p]))
    /\ buf' = [buf EXCEPT ![p] = @ \o [j \in 1..n |-> src.seen[p] + j - 1]]
    /\ src' = [src EXCEPT !.next = src.seen[p] + n, !.seen[p] = 0]
    /\ pc' = [pc EXCEPT ![p] = IF Mut = "shortok" THEN "leaving" ELSE "ready"]
    /\ UNCHANGED <<lock, got, calls, fails>>
Fail(p) ==
    /\ pc[p] = "reading" /\ fails < MaxFails
    /\ fails' = fails + 1
    /\ src' = [src EXCEPT !.seen[p] = 0]
    /\ got' = Append(got, IF Mut = "swallow" THEN [ok |-> TRUE, bytes |-> [j \in 1..Want |-> 0]] ELSE [ok |-> FALSE, bytes |-> <<>>])
    /\ lock' = IF Mut \in {"leaklock", "nolock"} THEN lock ELSE 0
    /\ pc' = [pc EXCEPT ![p] = "idle"]
    /\ UNCHANGED <<buf, calls>>
Leave(p) ==
    /\ \/ pc[p] = "ready" /\ Len(buf[p]) = Want
       \/ pc[p] = "leaving"
    /\ lock' = IF Mut = "nolock" THEN lock ELSE 0
    /\ got' = Append(got, [ok |-> TRUE, bytes |-> buf[p] \o [j \in 1..(Want - Len(buf[p])) |-> 0]])
    /\ pc' = [pc EXCEPT ![p] = "idle"]
    /\ UNCHANGED <<src, buf, calls, fails>>
Next == \E p \in Procs : Begin(p) \/ Lock(p) \/ Enter(p) \/ (\E n \in 1..Want : Give(p, n)) \/ Fail(p) \/ Leave(p)
Spec == Init /\ [][Next]_vars

AloneInSource == Cardinality({p \in Procs : pc[p] = "reading"}) <= 1
NothingTwice == \A i, j \in 1..Len(got) : i < j => \A x \in 1..Len(got[i].bytes), y \in 1..Len(got[j].bytes) : got[i].bytes[x] # got[j].bytes[y]
Filled == \A i \in 1..Len(got) : got[i].ok => Len(got[i].bytes) = Want /\ \A x \in 1..Want : got[i].bytes[x] > 0
NobodyStuck == (\E p \in Procs : pc[p] # "idle") => ENABLED Next
Unlocked == (\A p \in Procs : pc[p] \in {"idle", "waiting"}) => lock = 0
=============================================================================
