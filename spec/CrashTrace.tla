----------------------------- MODULE CrashTrace -----------------------------
(***************************************************************************)
(* Judges saves that were killed, that ran out of disk or that failed at a *)
(* system call (C10, C22 when the key was changed). The file must be what  *)
(* MCSave allows: old or new, never anything else.                         *)
(*   a.old, a.new   content before, content being saved                    *)
(*   r.oldk, r.newk what the old and the new key find in the file          *)
(***************************************************************************)
EXTENDS Judge, SequencesExt
Rule(holds, prop, what) == IF holds THEN {} ELSE {<<prop, what>>}

HoldsOld(a, r) == a.existed /\ r.oldk = a.old
HoldsNew(a, r) == r.newk = a.new
\* The system calls of a save, in order. of: the file of a descriptor; dirty:
\* the files with data that is not on the disk; lost: the store was among them
\* (a power failure would leave neither the old nor the new store).
Call(st, store, x) ==
    LET file == IF x.fd \in DOMAIN st.of THEN st.of[x.fd] ELSE 0
        with(d) == [st EXCEPT !.dirty = d, !.lost = @ \/ store \in d]
        moved(f) == IF f = x.f THEN x.to ELSE f
    IN
    CASE x.c \in {"open", "opentrunc", "opensync"} ->
            LET o == [st EXCEPT !.of = (x.fd :> x.f) @@ @, !.osync = IF x.c = "opensync" THEN @ \cup {x.fd} ELSE @ \ {x.fd}] IN
            IF x.c = "opentrunc" THEN [o EXCEPT !.dirty = @ \cup {x.f}, !.lost = @ \/ x.f = store] ELSE o
      [] x.c = "close" -> [st EXCEPT !.of = (x.fd :> 0) @@ @]
      [] x.c = "write" -> IF file = 0 \/ x.fd \in st.osync THEN st ELSE with(st.dirty \cup {file})
      [] x.c = "truncate" -> with(st.dirty \cup {x.f})
      [] x.c = "sync" -> with(st.dirty \ {file})
      [] x.c = "syncall" -> with({})
      [] x.c = "unlink" -> with(st.dirty \ {x.f})
      [] x.c = "link" -> with(st.dirty \cup (IF x.f \in st.dirty THEN {x.to} ELSE {}))
      [] x.c = "rename" -> [with((st.dirty \ {x.f, x.to}) \cup (IF x.f \in st.dirty THEN {x.to} ELSE {})) EXCEPT !.of = [y \in DOMAIN st.of |-> moved(st.of[y])]]
      [] OTHER -> st
CallsRules(a) ==
    LET e == FoldLeft(LAMBDA st, x : Call(st, a.store, x), [of |-> 0 :> 0, osync |-> {}, dirty |-> {}, lost |-> FALSE], a.calls) IN
    Rule(~e.lost, "C10", "the store is replaced by something that is not on the disk yet")
CrashRules(e) ==
    LET a == e.a r == e.r IN
    IF e.op = "calls" THEN CallsRules(a)
    ELSE IF r.panic THEN {<<"C10", "a save crashed instead of failing">>}
    ELSE IF r.ok THEN
        Rule(~a.unsynced, "C10", "a save reports success although its data could not be brought to the disk")
        \cup Rule(~a.badkey, "C10", "a save without a valid key reports success")
        \cup Rule(a.badkey \/ HoldsNew(a, r), "C10", "a save that reports success has not written the complete store")
        \cup Rule(a.badkey \/ ~a.rekey \/ r.oldk = 0, "C22", "the old key opens the store that was saved with a new key")
    ELSE IF r.err THEN
        Rule(a.fault # "none", "C10", "saving failed without a reason")
        \cup Rule(~a.existed \/ (r.exists /\ r.same), "C10", "a save that failed changed the previous file")
        \cup Rule(~a.existed \/ HoldsOld(a, r), "C10", "the previous content is lost after a save that failed")
    ELSE \* It died.
        Rule(~a.existed \/ HoldsOld(a, r) \/ HoldsNew(a, r), "C10", "the store is lost when a save is interrupted")
        \cup Rule(~a.existed \/ ~a.rekey \/ HoldsOld(a, r) \/ HoldsNew(a, r), "C22", "the store is lost when changing its key is interrupted")
        \cup Rule(a.existed \/ ~r.exists \/ a.fault = "device without room" \/ HoldsNew(a, r), "C10", "an interrupted save leaves an incomplete store")
=============================================================================
