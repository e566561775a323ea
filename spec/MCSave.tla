------------------------------- MODULE MCSave -------------------------------
(***************************************************************************)
(* Saving a store over another one, system call by system call, on a file  *)
(* system of names and inodes, while system calls fail and the program is  *)
(* killed at any point (C10). Two saves may run at the same time, and one  *)
(* may run after another was killed.                                       *)
(* A store is NBlocks blocks; an inode holds the blocks written to it.     *)
(* Version 0 is the old one. Mut selects wrong ways of saving.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NBlocks, Savers, MaxFaults, Mut

VARIABLES dir, data, ondisk, next, pc, fd, wrote, alive, res, faults
vars == <<dir, data, ondisk, next, pc, fd, wrote, alive, res, faults>>

Complete(v) == [j \in 1..NBlocks |-> v]
Temp(s) == s  \* the name of its temporary file; 0 is the name of the store
Names == {0} \cup {Temp(s) : s \in Savers}
MaxInode == 1 + 2 * Cardinality(Savers)

Init ==
    /\ dir = [n \in Names |-> IF n = 0 THEN 1 ELSE 0]
    /\ data = [j \in 1..MaxInode |-> IF j = 1 THEN Complete(0) ELSE <<>>]
    /\ ondisk = [j \in 1..MaxInode |-> IF j = 1 THEN NBlocks ELSE 0]
    /\ next = 2
    /\ pc = [s \in Savers |-> "start"]
    /\ fd = [s \in Savers |-> 0]
    /\ wrote = [s \in Savers |-> 0]
    /\ alive = [s \in Savers |-> TRUE]
    /\ res = [s \in Savers |-> "none"]
    /\ faults = 0

At(s, p) == alive[s] /\ pc[s] = p
Goto(s, p) == pc' = [pc EXCEPT ![s] = p]
Finish(s, r) == res' = [res EXCEPT ![s] = r] /\ Goto(s, "done")

OutName(s) == IF Mut = "inplace" THEN 0 ELSE Temp(s)

Create(s) ==
    /\ At(s, "start")
    /\ LET n == OutName(s) IN
       IF Mut = "inplace" /\ dir[n] # 0
       THEN /\ data' = [data EXCEPT ![dir[n]] = <<>>]   \* truncated
            /\ ondisk' = [ondisk EXCEPT ![dir[n]] = 0]
            /\ fd' = [fd EXCEPT ![s] = dir[n]]
            /\ UNCHANGED <<dir, next>>
       ELSE /\ dir' = [dir EXCEPT ![n] = next]
            /\ fd' = [fd EXCEPT ![s] = next]
            /\ next' = next + 1
            /\ UNCHANGED <<data, ondisk>>
    /\ Goto(s, IF Mut = "unlinkfirst" THEN "unlink" ELSE "write")
    /\ UNCHANGED <<wrote, alive, res, faults>>
Unlink(s) ==
    /\ At(s, "unlink")
    /\ dir' = [dir EXCEPT ![0] = 0]
    /\ Goto(s, "write")
    /\ UNCHANGED <<data, ondisk, next, fd, wrote, alive, res, faults>>
Write(s) ==
    /\ At(s, "write")
    /\ data' = [data EXCEPT ![fd[s]] = Append(@, s)]
    /\ wrote' = [wrote EXCEPT ![s] = @ + 1]
    /\ Goto(s, IF wrote[s] + 1 = NBlocks THEN (IF Mut \in {"nosync", "syncearly"} THEN "close" ELSE "sync")
               ELSE IF Mut = "syncearly" /\ wrote[s] = 0 THEN "sync"
               ELSE IF Mut = "renamefirst" /\ wrote[s] = 0 THEN "rename" ELSE "write")
    /\ UNCHANGED <<dir, ondisk, next, fd, alive, res, faults>>
\* What was written is brought to the disk; until then a power failure may
\* lose any of it.
Sync(s) ==
    /\ At(s, "sync")
    /\ ondisk' = [ondisk EXCEPT ![fd[s]] = Len(data[fd[s]])]
    /\ Goto(s, IF wrote[s] < NBlocks THEN "write" ELSE "close")
    /\ UNCHANGED <<dir, data, next, fd, wrote, alive, res, faults>>
CloseFile(s) ==
    /\ At(s, "close")
    /\ IF Mut = "inplace" \/ (Mut = "renamefirst" /\ dir[Temp(s)] = 0) THEN Finish(s, "ok") ELSE Goto(s, "rename") /\ UNCHANGED res
    /\ UNCHANGED <<dir, data, ondisk, next, fd, wrote, alive, faults>>
Rename(s) ==
    /\ At(s, "rename")
    /\ dir' = [dir EXCEPT ![0] = dir[Temp(s)], ![Temp(s)] = 0]
    /\ IF wrote[s] < NBlocks /\ Mut # "ignorewrite" THEN Goto(s, "write") /\ UNCHANGED res ELSE Finish(s, "ok")
    /\ UNCHANGED <<data, ondisk, next, fd, wrote, alive, faults>>

\* A system call fails. What was written of a block when a write fails does
\* not count as a block.
Fault(s) ==
    /\ faults < MaxFaults
    /\ faults' = faults + 1
    /\ \/ /\ (At(s, "start") \/ At(s, "cleanup"))
          /\ Finish(s, "err")
       \/ /\ At(s, "sync")
          /\ Goto(s, IF Mut = "ignoresync" THEN "close" ELSE "cleanup")
          /\ UNCHANGED res
       \/ /\ (At(s, "write") \/ At(s, "close"))
          /\ Goto(s, IF Mut = "ignorewrite" THEN "rename" ELSE "cleanup")
          /\ UNCHANGED res
       \/ /\ (At(s, "rename") \/ At(s, "unlink"))
          /\ Goto(s, "cleanup")
          /\ UNCHANGED res
    /\ pc'[s] # pc[s]
    /\ UNCHANGED <<dir, data, ondisk, next, fd, wrote, alive>>
Cleanup(s) ==
    /\ At(s, "cleanup")
    /\ dir' = IF Mut = "inplace" THEN dir ELSE [dir EXCEPT ![Temp(s)] = 0]
    /\ Finish(s, "err")
    /\ UNCHANGED <<data, ondisk, next, fd, wrote, alive, faults>>
Kill(s) ==
    /\ alive[s] /\ res[s] = "none"
    /\ alive' = [alive EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<dir, data, ondisk, next, pc, fd, wrote, res, faults>>

Next == \E s \in Savers : Create(s) \/ Unlink(s) \/ Write(s) \/ Sync(s) \/ CloseFile(s) \/ Rename(s) \/ Fault(s) \/ Cleanup(s) \/ Kill(s)
Spec == Init /\ [][Next]_vars

Content == IF dir[0] = 0 THEN <<>> ELSE data[dir[0]]
Values == {0} \cup Savers
\* The store is always one complete version.
AlwaysComplete == \E v \in Values : Content = Complete(v)
\* Also after a power failure, which loses what is not on the disk.
AlwaysOnDisk == dir[0] # 0 => ondisk[dir[0]] = Len(data[dir[0]])
\* Once a save has reported success the old version is gone for good.
SuccessIsWritten == \A s \in Savers : res[s] = "ok" => Content # Complete(0) /\ Content # <<>>
\* A save that fails, or was killed before it renamed, has changed nothing.
FailureKeeps == \A s \in Savers : res[s] = "err" => Content # Complete(s)
OnlySuccessOrDeathReplaces == \A s \in Savers : Content = Complete(s) => res[s] = "ok"
=============================================================================
