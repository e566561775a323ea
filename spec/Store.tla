------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Instances, their settings for persistence and the files they save to    *)
(* and load from: what every operation must do (C08-C11, C22).             *)
(*                                                                         *)
(* A file is a record                                                      *)
(*   kind  "absent", "store", "junk" (not a store, or a damaged one) or    *)
(*         "dir" (a directory, or nothing can be written at this place)    *)
(*   key   the key a store was written with                                *)
(*   cont  what it holds                                                   *)
(*   ok    for junk: the contents loading may yield all the same, which is *)
(*         not empty only if what was done to the file did not change it   *)
(*         (e.g. a bit was set that was set already)                       *)
(* An instance is a record                                                 *)
(*   cont  keys, messages and settings                                     *)
(*   path  where it is saved, 0 if nowhere                                 *)
(*   key   persistence key, NoKey if there is none                         *)
(*   good  the key is 32 bytes long                                        *)
(*   salt  salt of passwords                                               *)
(*   ow    may overwrite an existing file                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NoKey

Absent == [kind |-> "absent", key |-> NoKey, cont |-> 0, ok |-> {}]
StoreFile(key, cont) == [kind |-> "store", key |-> key, cont |-> cont, ok |-> {}]
Junk(key, ok) == [kind |-> "junk", key |-> key, cont |-> 0, ok |-> ok]
Dir == [kind |-> "dir", key |-> NoKey, cont |-> 0, ok |-> {}]
Nowhere == [kind |-> "nowhere", key |-> NoKey, cont |-> 0, ok |-> {}]

\* Why saving the instance to its file f is refused, "" if it is not.
\* Several reasons may apply at once; the order is not specified.
SaveRefusals(inst, f) ==
    (IF inst.path = 0 THEN {"no file name"} ELSE {})
    \cup (IF inst.path # 0 /\ f.kind \in {"dir", "nowhere"} THEN {"unwritable"} ELSE {})
    \cup (IF inst.path # 0 /\ f.kind \in {"store", "junk"} /\ ~inst.ow THEN {"exists"} ELSE {})
    \cup (IF inst.key = NoKey THEN {"no key"} ELSE {})
    \cup (IF inst.key # NoKey /\ ~inst.good THEN {"bad key"} ELSE {})

SaveFile(inst) == StoreFile(inst.key, inst.cont)

LoadRefusals(inst, f) ==
    (IF inst.path = 0 THEN {"no file name"} ELSE {})
    \cup (IF inst.path # 0 /\ f.kind \in {"absent", "nowhere", "dir"} THEN {"no store"} ELSE {})
    \cup (IF inst.key = NoKey THEN {"no key"} ELSE {})
    \cup (IF inst.key # NoKey /\ ~inst.good THEN {"bad key"} ELSE {})
    \cup (IF inst.key # NoKey /\ inst.good /\ f.kind \in {"store", "junk"} /\ inst.key # f.key THEN {"wrong key"} ELSE {})
    \cup (IF f.kind = "junk" /\ f.ok = {} THEN {"damaged"} ELSE {})

\* What loading may yield (when it is not refused, or when it may be).
LoadYields(inst, f) ==
    IF LoadRefusals(inst, f) # {} THEN {} ELSE IF f.kind = "store" THEN {f.cont} ELSE f.ok
LoadMayFail(inst, f) == f.kind # "store" \/ LoadRefusals(inst, f) # {}
=============================================================================
