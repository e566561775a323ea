------------------------------- MODULE MCWipe -------------------------------
(***************************************************************************)
(* Wiping memory (C16). A store has objects (keys, messages) at places of  *)
(* a list; an object has memory cells for each of its fields. Wiping fills *)
(* a field from the random source, which may fail at any time, having      *)
(* written only the first cells; the field is then filled with zeroes.     *)
(* Deleting wipes an object, moves the last one into its place and         *)
(* shortens the list. Closing wipes all objects and the secrets of the     *)
(* store itself, a last object. Memory stays when an object is gone.       *)
(* Cells: "secret", "noise". Properties: no object that is gone has a      *)
(* secret cell; the objects that remain still have all of theirs.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NObj, Fields, Size, MaxFails, Mut
VARIABLES mem, list, gone, job, fails, closed, log
vars == <<mem, list, gone, job, fails, closed, log>>
Objs == 1..NObj
Own == 0            \* the store's own secrets: persistence key, salt
F == 1..Fields
Secret == [j \in 1..Size |-> "secret"]
Noise == [j \in 1..Size |-> "noise"]
NoJob == [o |-> -1, f |-> 1, at |-> 0, then |-> "none"]
Init ==
    /\ mem = [o \in Objs \cup {Own} |-> [f \in F |-> Secret]]
    /\ list = [j \in 1..NObj |-> j]
    /\ gone = {} /\ job = NoJob /\ fails = 0 /\ closed = FALSE /\ log = <<>>
Idle == job.o = -1
\* The n first cells of a field are filled.
Part(m, n) == [j \in 1..Size |-> IF j <= n THEN "noise" ELSE m[j]]
Last == list[Len(list)]
Without(p) == SubSeq([list EXCEPT ![p] = Last], 1, Len(list) - 1)
BeginDelete(p) ==
    /\ Idle /\ ~closed /\ p \in 1..Len(list)
    /\ IF Mut = "movefirst"
       THEN \* wipes what is at the place after the last object was moved there
            /\ list' = Without(p)
            /\ job' = [NoJob EXCEPT !.o = Last, !.then = "drop"]
            /\ gone' = gone \cup {list[p]}
            /\ UNCHANGED <<mem, fails, closed>>
       ELSE /\ job' = [NoJob EXCEPT !.o = list[p], !.at = p, !.then = "delete"]
            /\ UNCHANGED <<mem, list, gone, fails, closed>>
BeginWipe(p) ==
    /\ Idle /\ ~closed /\ p \in 1..Len(list) /\ list[p] \notin gone
    /\ job' = [NoJob EXCEPT !.o = list[p], !.then = "wiped"]
    /\ UNCHANGED <<mem, list, gone, fails, closed>>
BeginClose ==
    /\ Idle /\ ~closed
    /\ job' = [NoJob EXCEPT !.o = IF list = <<>> THEN Own ELSE list[1], !.at = 1, !.then = "close"]
    /\ closed' = TRUE
    /\ UNCHANGED <<mem, list, gone, fails>>
\* One field is wiped; the source fails after n cells, or not (n = Size).
WipeField(n) ==
    /\ ~Idle /\ job.f <= Fields
    /\ (n < Size) => fails < MaxFails
    /\ fails' = IF n < Size THEN fails + 1 ELSE fails
    /\ LET m == mem[job.o][job.f]
           new == IF n = Size THEN Noise
                  ELSE IF Mut = "nofallback" THEN Part(m, n)
                  ELSE Noise
           skip == Mut = "skipfield" /\ job.f = Fields
       IN mem' = IF skip THEN mem ELSE [mem EXCEPT ![job.o][job.f] = new]
    /\ job' = IF n < Size /\ Mut = "giveup" THEN [job EXCEPT !.f = Fields + 1] ELSE [job EXCEPT !.f = @ + 1]
    /\ UNCHANGED <<list, gone, closed>>
Finish ==
    /\ ~Idle /\ job.f > Fields
    /\ gone' = gone \cup (IF job.then = "drop" THEN {} ELSE {job.o})
    /\ CASE job.then = "delete" -> list' = Without(job.at) /\ job' = NoJob
         [] job.then = "close" ->
              /\ list' = list
              /\ job' = IF job.o = Own THEN NoJob
                        ELSE IF job.at < Len(list) THEN [o |-> list[job.at + 1], f |-> 1, at |-> job.at + 1, then |-> "close"]
                        ELSE IF Mut = "keepown" THEN NoJob
                        ELSE [o |-> Own, f |-> 1, at |-> 0, then |-> "close"]
         [] OTHER -> list' = list /\ job' = NoJob
    /\ UNCHANGED <<mem, fails, closed>>
Cmd(op, p) == [op |-> op, j |-> p - 1, x |-> RandomElement(0..11)]
Next ==
    \/ \E p \in 1..NObj : \/ (BeginDelete(p) /\ log' = IF Mut = "log" THEN Append(log, Cmd("delete", p)) ELSE log)
                        \/ (BeginWipe(p) /\ log' = IF Mut = "log" THEN Append(log, Cmd("wipe", p)) ELSE log)
    \/ (BeginClose /\ log' = IF Mut = "log" THEN Append(log, Cmd("close", 1)) ELSE log)
    \/ (\E n \in 0..Size : WipeField(n)) /\ UNCHANGED log
    \/ (Finish /\ UNCHANGED log)
Spec == Init /\ [][Next]_vars

HasSecret(o) == \E f \in F : \E j \in 1..Size : mem[o][f][j] = "secret"
Whole(o) == \A f \in F : mem[o][f] = Secret
NothingLeft == Idle => (\A o \in gone : ~HasSecret(o)) /\ (closed => ~HasSecret(Own) /\ \A o \in Objs : ~HasSecret(o))
OthersKept == Idle /\ ~closed => Whole(Own) /\ \A j \in 1..Len(list) : list[j] \in gone \/ Whole(list[j])
\* In simulation: print the operations of a behaviour that ended.
Show == (closed /\ Idle) => PrintT("WIPES " \o ToJson(log))
=============================================================================
