----------------------------- MODULE ListTrace -----------------------------
(***************************************************************************)
(* Judges recorded listings, and deletions by lines of listings, against   *)
(* Listing (C25).                                                          *)
(***************************************************************************)
EXTENDS Listing, Judge
TraceKey(n) == D.keys[n]
TraceMsg(n) == D.msgs[n]
FirstWord(s) == LET w == TextToks(s) IN IF w = <<>> THEN <<>> ELSE w[1]
\* before, after: the items of the store, id: their ids. lines: chosen lines.
Removed(a, r, id(_)) ==
    LET gone == {FirstWord(Str(a.lines[j])) : j \in 1..Len(a.lines)} IN
    IF r.panic \/ r.err THEN {<<"C25", "items chosen from a listing can not be deleted">>} ELSE
    Rule(/\ Len(r.after) = Cardinality({j \in 1..Len(a.before) : Str(id(a.before[j])) \notin gone})
         /\ {r.after[j] : j \in 1..Len(r.after)} = {x \in {a.before[j] : j \in 1..Len(a.before)} : Str(id(x)) \notin gone}
         /\ r.n = Len(a.before) - Len(r.after),
         "C25", "something else than the items chosen from a listing is deleted")
ListingRules(e) ==
    CASE e.op \in {"klist", "mlist"} /\ e.r.panic -> {<<"C25", "listing crashed">>}
      [] e.op = "klist" /\ ~e.r.panic -> ListedKeys([j \in 1..Len(e.a.items) |-> TraceKey(e.a.items[j])], e.a.crem, e.r.head, e.r.ls)
      [] e.op = "mlist" /\ ~e.r.panic -> ListedMsgs([j \in 1..Len(e.a.items) |-> TraceMsg(e.a.items[j])], e.r.head, e.r.ls)
      [] e.op = "kdelsum" -> Removed(e.a, e.r, LAMBDA x : TraceKey(x).id)
      [] e.op = "mdelsum" -> Removed(e.a, e.r, LAMBDA x : TraceMsg(x).id)
=============================================================================
