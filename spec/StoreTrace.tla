----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of instances and files against Store (C08-    *)
(* C11, C22; C13 for instances that are not concerned; C16 for passwords). *)
(* Contents, keys and files are references; equal references are equal     *)
(* things. a.i and a.p are the instance and the path, post the contents of *)
(* the instances, r.keys their keys and r.files the files.                 *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Traces == D.traces
Rule(holds, prop, what) == IF holds THEN {} ELSE {<<prop, what>>}
SetOf(s) == {s[j] : j \in 1..Len(s)}

VARIABLES t, i, inst, file, fh, bad
vars == <<t, i, inst, file, fh, bad>>

\* The last references of Init are the first key and the files.
NumPaths(tr) == Len(tr.events[1].r.files)
NumInsts(tr) == Len(tr.events[1].post)
Init ==
    /\ t \in 1..Len(Traces)
    /\ i = 0
    /\ inst = [n \in 1..NumInsts(Traces[t]) |->
               [cont |-> Traces[t].init[n], path |-> 1, key |-> Traces[t].init[NumInsts(Traces[t]) + 1], good |-> TRUE, salt |-> 0, ow |-> FALSE]]
    /\ file = [p \in 1..NumPaths(Traces[t]) |-> Absent]
    /\ fh = [p \in 1..NumPaths(Traces[t]) |-> Traces[t].init[NumInsts(Traces[t]) + 1 + p]]
    /\ bad = {}

FileAt(p) == IF p = 0 THEN Nowhere ELSE file[p]

\* Which property a refusal belongs to.
PropOf(why) == CASE why = "exists" -> "C11" [] why = "no file name" -> "C11" [] why = "no key" -> "C11"
                 [] why = "unwritable" -> "C10" [] OTHER -> "C10"

\* The probes: keys tried on a file and what they found there.
ProbeRules(a, r, f, propOk) ==
    UNION {LET k == r.open[j] found == r.found[j] IN
           Rule(found # -1, "C09", "loading a saved store crashed")
           \cup (IF k = f.key THEN Rule(found # 0, propOk, "the key a store was saved with does not open it")
                                   \cup Rule(found \in {0, -1, f.cont}, "C08", "loading gives something else than what was saved")
                                   \cup Rule(found \in {0, -1, f.cont}, "C22", "the new key opens something else than what was saved")
                 ELSE Rule(found \in {0, -1}, "C22", "another key opens the store") \cup Rule(found \in {0, -1}, "C09", "a wrong key opens the store"))
           : j \in 1..Len(r.open)}

OthersSame(e, except) == \A n \in DOMAIN inst : n \in except \/ e.post[n] = inst[n].cont
FilesSame(e, except) == \A p \in DOMAIN fh : p \in except \/ e.r.files[p] = fh[p]
Common(e, insts, files) ==
    Rule(OthersSame(e, insts), "C13", "an operation on one instance changed another")
    \cup Rule(FilesSame(e, files), "C11", "a file that was not meant was changed")

SaveRules(e) ==
    LET x == inst[e.a.i] f == FileAt(x.path) refused == SaveRefusals(x, f) IN
    (IF e.r.panic THEN {<<"C10", "saving crashed">>} ELSE
     IF refused # {} THEN
        UNION {Rule(e.r.err, PropOf(w), "saving succeeded although it must be refused: " \o w) : w \in refused}
        \cup Rule(~e.r.err \/ FilesSame(e, {}), "C10", "a save that failed changed a file")
        \cup Rule("exists" \notin refused \/ FilesSame(e, {}), "C11", "an existing file was overwritten")
        \cup Rule(({"no key", "bad key"} \cap refused = {}) \/ FilesSame(e, {}), "C11", "a file was touched although there is no valid key")
     ELSE
        Rule(~e.r.err, "C08", "saving failed without a reason")
        \cup Rule(~e.r.err \/ FilesSame(e, {}), "C10", "a save that failed changed a file")
        \cup (IF e.r.err THEN {} ELSE ProbeRules(e.a, e.r, SaveFile(x), "C08")))
    \cup Rule(e.post[e.a.i] = x.cont, "C13", "saving changed the instance")
    \cup Common(e, {e.a.i}, IF x.path = 0 THEN {} ELSE {x.path})

LoadRules(e) ==
    LET x == inst[e.a.i] f == FileAt(x.path) y == LoadYields(x, f) IN
    (IF e.r.panic THEN {<<"C09", "loading crashed">>} ELSE
     IF e.r.err THEN Rule(LoadMayFail(x, f), "C08", "loading failed without a reason")
                     \cup Rule(LoadMayFail(x, f), "C09", "a store does not load with the right key any more")
                     \cup Rule(e.post[e.a.i] = x.cont, "C09", "a load that failed changed the instance")
     ELSE Rule(y # {}, "C09", "a load that must be refused succeeded")
          \cup Rule(y = {} \/ e.post[e.a.i] \in y, IF f.kind = "junk" THEN "C09" ELSE "C08", "loading gives something else than what was saved"))
    \cup Rule(FilesSame(e, {}), "C09", "loading changed a file")
    \cup Common(e, {e.a.i}, DOMAIN fh)

ExportRules(e) ==
    LET f == file[e.a.p]
        n == [cont |-> e.a.cont, path |-> e.a.p, key |-> e.a.key, good |-> e.a.good, salt |-> 0, ow |-> e.a.ow]
        refused == SaveRefusals(n, f)
    IN  (IF e.r.panic THEN {<<"C10", "exporting crashed">>, <<"C12", "exporting crashed">>} ELSE
         IF refused # {} THEN
            UNION {Rule(e.r.err, PropOf(w), "exporting succeeded although it must be refused: " \o w) : w \in refused}
            \cup Rule(FilesSame(e, {}), "C11", "an export that must be refused changed a file")
         ELSE Rule(~e.r.err, "C12", "exporting failed without a reason")
              \cup (IF e.r.err THEN {} ELSE ProbeRules(e.a, e.r, SaveFile(n), "C12")))
        \cup Rule(e.post[e.a.i] = inst[e.a.i].cont, "C13", "exporting changed the instance")
        \cup Common(e, {e.a.i}, {e.a.p})

EmptyText == CHOOSE r \in 1..Len(D.strs) : D.strs[r] = <<>>
KeyText(x) == IF x.key = NoKey THEN EmptyText ELSE x.key

KeyRules(e) ==
    LET x == inst[e.a.i] IN
    Rule(~e.r.panic, "C22", "setting a key crashed")
    \cup (IF e.a.bad THEN Rule(e.r.panic \/ e.r.err, "C22", "a malformed key was accepted")
                          \cup Rule(e.r.keys[e.a.i] = KeyText(x), "C22", "a malformed key changed the key")
          ELSE Rule(~e.r.err, "C22", "a key was refused")
               \cup Rule(e.r.keys[e.a.i] = (IF e.a.key = 0 THEN EmptyText ELSE e.a.key), "C22", "not the key that was set"))
    \cup Rule(e.post[e.a.i] = x.cont, "C22", "setting a key changed keys, messages or settings")
    \cup Common(e, {e.a.i}, {})
PwRules(e) ==
    LET x == inst[e.a.i] IN
    Rule(~e.r.panic, "C22", "deriving a key crashed")
    \cup Rule(~e.a.bad, "C22", "a generated salt is not 32 bytes long or was refused")
    \cup (IF e.a.none THEN Rule(e.r.panic \/ e.r.err, "C22", "a key was derived without a valid salt")
                           \cup Rule(e.r.keys[e.a.i] = KeyText(x), "C22", "failing to derive a key changed the key")
          ELSE Rule(~e.r.err, "C22", "deriving a key failed")
               \cup Rule(e.r.keys[e.a.i] = e.a.key, "C22", "the derived key is not PBKDF2-SHA256 of password and salt"))
    \cup Rule(~e.r.kept, "C16", "a password was left in memory after deriving a key")
    \cup Rule(e.post[e.a.i] = x.cont, "C22", "deriving a key changed keys, messages or settings")
    \cup Common(e, {e.a.i}, {})
ValidSettings(a) == a.named /\ a.gs >= 1 /\ a.kl >= 20 /\ a.cols >= 85 /\ a.kcols >= a.gs
AssertRules(e) ==
    Rule(~e.r.panic, "C11", "checking the settings crashed")
    \cup Rule(e.r.panic \/ (e.r.err = ~ValidSettings(e.a)), "C11", "invalid settings were accepted or valid ones refused")
    \cup Common(e, {}, {})

\* Bytes that were good before are put back: the last store saved at the path.
VARIABLE good
Rules(e) ==
    CASE e.op = "save" -> SaveRules(e)
      [] e.op = "load" -> LoadRules(e)
      [] e.op = "export" -> ExportRules(e)
      [] e.op \in {"key", "genkey"} -> IF e.op = "genkey" THEN {<<"C22", "a generated key is not 32 bytes in hex">>} ELSE KeyRules(e)
      [] e.op = "pw" -> PwRules(e)
      [] e.op = "assert" -> AssertRules(e)
      [] e.op = "restore" -> ProbeRules(e.a, e.r, good[e.a.p], "C09")
      [] e.op = "change" -> Common(e, {e.a.i}, {})
      [] e.op \in {"new", "path"} -> Common(e, {e.a.i}, {})
      [] e.op \in {"damage", "older"} -> {}

\* The model follows what must have happened; where several things may, what
\* was observed.
Saves(e) == ~e.r.panic /\ ~e.r.err
NextInst(e) ==
    LET n == e.a.i IN
    IF n = 0 THEN inst
    ELSE [inst EXCEPT ![n] =
        CASE e.op = "new" -> [cont |-> e.post[n], path |-> e.a.p, key |-> e.a.key, good |-> TRUE, salt |-> 0, ow |-> e.a.ow]
          [] e.op = "path" -> [@ EXCEPT !.path = e.a.p]
          [] e.op = "key" -> IF e.a.bad THEN @ ELSE [@ EXCEPT !.key = IF e.a.key = 0 THEN NoKey ELSE e.a.key, !.good = (e.a.len = 32)]
          [] e.op = "pw" -> IF e.a.none THEN @ ELSE [@ EXCEPT !.key = e.a.key, !.good = TRUE]
          [] e.op = "load" -> [@ EXCEPT !.cont = e.post[n], !.ow = (@ \/ (~e.r.err /\ ~e.r.panic))]
          [] OTHER -> [@ EXCEPT !.cont = e.post[n]]]
NextFile(e) ==
    CASE e.op = "save" /\ Saves(e) /\ inst[e.a.i].path # 0 -> [file EXCEPT ![inst[e.a.i].path] = SaveFile(inst[e.a.i])]
      [] e.op = "export" /\ Saves(e) -> [file EXCEPT ![e.a.p] = StoreFile(e.a.key, e.a.cont)]
      [] e.op = "older" -> [file EXCEPT ![e.a.p] = StoreFile(e.a.key, e.a.cont)]
      [] e.op = "damage" -> [file EXCEPT ![e.a.p] = CASE e.a.what = "dir" -> Dir [] e.a.what = "absent" -> Absent
                                                     [] OTHER -> Junk(@.key, SetOf(e.a.ok))]
      [] e.op = "restore" -> [file EXCEPT ![e.a.p] = good[e.a.p]]
      [] OTHER -> file
Next ==
    /\ i < Len(Traces[t].events)
    /\ i' = i + 1
    /\ LET e == Traces[t].events[i + 1] IN
       /\ bad' = Rules(e)
       /\ inst' = NextInst(e)
       /\ file' = NextFile(e)
       /\ good' = [p \in DOMAIN file |-> IF file'[p].kind = "store" THEN file'[p] ELSE good[p]]
       /\ fh' = [p \in DOMAIN fh |-> e.r.files[p]]
    /\ \A b \in bad' : PrintT(<<"BAD", t, i + 1, b[1], b[2]>>)
    /\ UNCHANGED t
Spec == Init /\ good = [p \in DOMAIN file |-> Absent] /\ [][Next]_<<vars, good>>
View == <<t, i>>
=============================================================================
