------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* All short histories of two instances saving to, loading from and        *)
(* rekeying files, with damage from outside. Contents are numbers; 0 is    *)
(* the content of a new instance. Mut selects a deliberately wrong model.  *)
(* log is the history for replay into the code, it is not part of the view.*)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS Insts, Paths, Keys, MaxCont, MaxLevel, Mut

VARIABLES inst, file, next, writer, last, log
vars == <<inst, file, next, writer, last, log>>
View == <<inst, file, next, writer, last>>

New(ow) == [cont |-> 0, path |-> 1, key |-> CHOOSE k \in Keys : \A j \in Keys : k <= j, good |-> TRUE, salt |-> 0, ow |-> ow]
FileOf(i) == IF inst[i].path = 0 THEN Nowhere ELSE file[inst[i].path]

Init ==
    /\ inst = [i \in Insts |-> New(FALSE)]
    /\ file = [p \in Paths |-> Absent]
    /\ next = 1
    /\ writer = [p \in Paths |-> 0]
    /\ last = [op |-> "init"]
    /\ log = <<>>

Log(c) == log' = Append(log, c)
Cmd(op, i, p, x) == [op |-> op, i |-> i, p |-> p, x |-> x]

Fresh(i) == \E ow \in BOOLEAN, p \in Paths :
    /\ inst' = [inst EXCEPT ![i] = [New(ow) EXCEPT !.path = p]]
    /\ last' = [op |-> "new"]
    /\ Log(Cmd("new", i, p, IF ow THEN 1 ELSE 0))
    /\ UNCHANGED <<file, next, writer>>
Change(i) ==
    /\ next <= MaxCont
    /\ inst' = [inst EXCEPT ![i].cont = next]
    /\ next' = next + 1
    /\ last' = [op |-> "change"]
    /\ Log(Cmd("change", i, 0, next))
    /\ UNCHANGED <<file, writer>>
SetPath(i) == \E p \in Paths \cup {0} :
    /\ inst[i].path # p
    /\ inst' = [inst EXCEPT ![i].path = p]
    /\ last' = [op |-> "path"]
    /\ Log(Cmd("path", i, p, 0))
    /\ UNCHANGED <<file, next, writer>>
SetKey(i) == \E k \in Keys \cup {NoKey} :
    /\ inst[i].key # k
    /\ inst' = [inst EXCEPT ![i].key = k, ![i].good = TRUE]
    /\ last' = [op |-> "key"]
    /\ Log(Cmd("key", i, 0, k))
    /\ UNCHANGED <<file, next, writer>>
Save(i) ==
    LET refused == SaveRefusals(inst[i], FileOf(i))
        ok == refused = {} \/ (Mut = "clobber" /\ refused = {"exists"})
    IN  /\ file' = IF ok THEN [file EXCEPT ![inst[i].path] = SaveFile(inst[i])]
                   ELSE IF Mut = "truncate" /\ "no key" \in refused /\ inst[i].path # 0 THEN [file EXCEPT ![inst[i].path] = Junk(NoKey, {})]
                   ELSE file
        /\ writer' = IF ok THEN [writer EXCEPT ![inst[i].path] = i] ELSE writer
        /\ last' = [op |-> "save", ok |-> ok, i |-> i, before |-> FileOf(i)]
        /\ Log(Cmd("save", i, 0, 0))
        /\ UNCHANGED <<inst, next>>
Load(i) ==
    LET y == LoadYields(inst[i], FileOf(i)) IN
    /\ \E c \in (IF y = {} THEN {-1} ELSE y) :
        /\ inst' = IF c # -1 THEN [inst EXCEPT ![i].cont = c, ![i].ow = TRUE]
                   ELSE IF Mut = "failedload" THEN [inst EXCEPT ![i].ow = TRUE] ELSE inst
        /\ last' = [op |-> "load", ok |-> c # -1, i |-> i, before |-> FileOf(i), cont |-> inst[i].cont]
    /\ Log(Cmd("load", i, 0, 0))
    /\ UNCHANGED <<file, next, writer>>
Damage(p) ==
    /\ file[p].kind = "store"
    /\ file' = [file EXCEPT ![p] = Junk(file[p].key, {})]
    /\ last' = [op |-> "damage"]
    /\ Log(Cmd("damage", 0, p, 0))
    /\ UNCHANGED <<inst, next, writer>>
Next == TLCGet("level") < MaxLevel /\
    (\/ \E i \in Insts : Fresh(i) \/ Change(i) \/ SetPath(i) \/ SetKey(i) \/ Save(i) \/ Load(i)
     \/ \E p \in Paths : Damage(p))
Spec == Init /\ [][Next]_vars

\* C11: what is at a path is replaced only by an instance that was allowed to
\* or that loaded what is there or another store before.
Guarded == last.op = "save" /\ last.ok => (last.before.kind = "absent" \/ inst[last.i].ow)
MayOverwriteOnlyIfMeant == [][\A i \in Insts : inst'[i].ow /\ ~inst[i].ow => last'.op = "new" \/ (last'.op = "load" /\ last'.ok)]_vars
\* C08: after a successful save the instance's key opens the file and it holds
\* what the instance holds.
SavedIsLoadable == last.op = "save" /\ last.ok =>
    LoadYields(inst[last.i], FileOf(last.i)) = {inst[last.i].cont}
\* C09: what a load yields was saved to that file with that key.
LoadedWasSaved == last.op = "load" /\ last.ok =>
    last.before.kind = "store" /\ last.before.key = inst[last.i].key /\ last.before.cont = inst[last.i].cont
FailedLoadChangesNothing == last.op = "load" /\ ~last.ok => inst[last.i].cont = last.cont
\* C10: a save that fails leaves the file as it was.
FailedSaveKeeps == last.op = "save" /\ ~last.ok => FileOf(last.i) = last.before
\* C22: only the key a store was written with opens it.
OnlyItsKey == \A p \in Paths : file[p].kind = "store" =>
    \A k \in Keys : k # file[p].key => LoadYields([New(TRUE) EXCEPT !.path = p, !.key = k], file[p]) = {}
Depth == TLCGet("level") < MaxLevel
PrintScenario == Depth \/ PrintT("STORE " \o ToJson(log))
=============================================================================
