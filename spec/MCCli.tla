------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* Commands of the program, one after another (C21, C02, C10). Every       *)
(* command loads the store, works on what it loaded, saves and then shows  *)
(* what it has to show and reports success. Saving may fail, and the       *)
(* program may be killed at any point. What was shown (the cipher text of  *)
(* a key) can be sent: its key must be used up in the store from then on.  *)
(* Mut: programs that get it wrong.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxKeys, MaxCmds, Mut, Calm    \* Calm: (simulation) not killed often
VARIABLES disk,   \* keys and messages on disk: [keys, used, msgs, key]
          run,    \* the running command: [op, pc, mem, pre, k]
          shown,  \* sequence of the keys whose cipher text was shown
          n,      \* commands started
          made,   \* keys made so far
          cmds    \* what was done, for simulation
vars == <<disk, run, shown, n, made, cmds>>
Ops == {"gen", "send", "recv", "list", "delkey", "delmsg", "rekey", "show"}
None == [op |-> "none", pc |-> "idle", mem |-> 0, pre |-> 0, k |-> 0]
Nothing == [keys |-> {}, used |-> {}, msgs |-> {}, key |-> 1]

Init == disk = Nothing /\ run = None /\ shown = <<>> /\ n = 0 /\ made = 0 /\ cmds = <<>>

Start(op) ==
    /\ run.pc = "idle" /\ n < MaxCmds
    /\ run' = [op |-> op, pc |-> "loaded", mem |-> disk, pre |-> disk, k |-> 0]
    /\ n' = n + 1
    /\ UNCHANGED <<disk, shown, made, cmds>>

\* What is left to do after working in memory.
AfterWork(saves) == IF ~saves THEN "toshow"
                    ELSE IF Mut = "showfirst" /\ run.op = "send" THEN "showfirst" ELSE "tosave"
Work ==
    /\ run.pc = "loaded"
    /\ LET m == run.mem IN
       CASE run.op = "gen" ->
              IF made < MaxKeys THEN /\ made' = made + 1
                                     /\ run' = [run EXCEPT !.mem = [m EXCEPT !.keys = @ \cup {made + 1}], !.pc = AfterWork(TRUE)]
              ELSE run' = [run EXCEPT !.pc = "failed"] /\ UNCHANGED made
         [] run.op = "send" ->
              /\ IF m.keys \ m.used = {} THEN run' = [run EXCEPT !.pc = "failed"]
                 ELSE \E k \in m.keys \ m.used :
                      run' = [run EXCEPT !.mem = [m EXCEPT !.used = @ \cup {k}, !.msgs = @ \cup {k}], !.k = k, !.pc = AfterWork(TRUE)]
              /\ UNCHANGED made
         [] run.op \in {"recv", "list"} ->  \* reading traffic uses up a key
              /\ \E k \in m.keys \cup {0} :
                 run' = [run EXCEPT !.mem = IF k = 0 THEN m ELSE [m EXCEPT !.used = @ \cup {k}], !.pc = AfterWork(k # 0 /\ ~(Mut = "nosave" /\ run.op = "list"))]
              /\ UNCHANGED made
         [] run.op = "delkey" ->
              /\ \E k \in m.keys \cup {0} :
                 run' = [run EXCEPT !.mem = IF k = 0 THEN m ELSE [m EXCEPT !.keys = @ \ {k}, !.used = @ \ {k}], !.pc = AfterWork(k # 0)]
              /\ UNCHANGED made
         [] run.op = "delmsg" ->
              /\ \E k \in m.msgs \cup {0} :
                 run' = [run EXCEPT !.mem = [m EXCEPT !.msgs = @ \ {k}], !.pc = AfterWork(k # 0)]
              /\ UNCHANGED made
         [] run.op = "rekey" -> run' = [run EXCEPT !.mem = [m EXCEPT !.key = 3 - @], !.pc = AfterWork(TRUE)] /\ UNCHANGED made
         [] run.op = "show" -> run' = [run EXCEPT !.pc = "toshow"] /\ UNCHANGED made
    /\ UNCHANGED <<disk, shown, n, cmds>>

ShowFirst == /\ run.pc = "showfirst"
             /\ shown' = Append(shown, run.k)
             /\ run' = [run EXCEPT !.pc = "tosave", !.k = 0]
             /\ UNCHANGED <<disk, n, made, cmds>>
SaveWell == /\ run.pc = "tosave"
            /\ disk' = run.mem
            /\ run' = [run EXCEPT !.pc = "toshow"]
            /\ UNCHANGED <<shown, n, made, cmds>>
SaveFails == /\ run.pc = "tosave"
             /\ run' = [run EXCEPT !.pc = IF Mut = "ignore" THEN "toshow" ELSE IF Mut = "exit0" THEN "done" ELSE "failed"]
             /\ UNCHANGED <<disk, shown, n, made, cmds>>
Show == /\ run.pc = "toshow"
        /\ shown' = IF run.op = "send" /\ run.k # 0 THEN Append(shown, run.k) ELSE shown
        /\ run' = [run EXCEPT !.pc = "done"]
        /\ UNCHANGED <<disk, n, made, cmds>>
End(how) == run' = None /\ cmds' = Append(cmds, [op |-> run.op, end |-> how]) /\ UNCHANGED <<disk, shown, n, made>>
Exit == run.pc = "done" /\ End("ok")
ExitFailed == run.pc = "failed" /\ End("fail")
Kill == run.pc # "idle" /\ (~Calm \/ RandomElement(1..10) = 1) /\ End("kill")
Next == (\E op \in Ops : Start(op)) \/ Work \/ ShowFirst \/ SaveWell \/ SaveFails \/ Show \/ Exit \/ ExitFailed \/ Kill
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* A key is shown for one message only, whatever is killed or fails.
OneMessagePerKey == \A i, j \in 1..Len(shown) : shown[i] = shown[j] => i = j
\* What was shown is used up in the store (until the key is deleted).
ShownIsSaved == \A i \in 1..Len(shown) : shown[i] \in disk.keys => shown[i] \in disk.used
\* A command that reports success has its effect on disk.
SuccessIsSaved == run.pc = "done" => disk = run.mem
\* Any other command has left all or nothing.
AllOrNothing == run.pc # "idle" => disk \in {run.pre, run.mem}
FailedIsNothing == run.pc = "failed" => disk = run.pre
View == <<disk, run, shown, n, made>>
---------------------------------------------------------------------------
\* In simulation: command sequences, and how each command ends.
ShowCmds == (n = MaxCmds /\ run.pc = "idle") => PrintT("COMMANDS " \o ToJson(cmds))
=============================================================================
