------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the command-line program (C20, C21, C22, C11).  *)
(*                                                                         *)
(* A trace is a sequence of commands; after each, r.files says what three  *)
(* files are: 1 the store, 2 another store, 3 the target of exports and of *)
(* new stores. A file is [k, st, keys, by]: absent, a directory, a store   *)
(* (its content st and the keys that open it) or junk; by is a hash of its *)
(* bytes. A command ended ok, with failure (exit status and message) or    *)
(* died; fault says what was done to it while it ran ("none": nothing).    *)
(*                                                                         *)
(* For every command there is                                              *)
(*   Want     whether it must succeed, must be refused, or may do either,  *)
(*   Effect   the rules broken by what the files are afterwards, taken     *)
(*            that the command took effect.                                *)
(* A command that reports success has taken its effect; one that reports   *)
(* failure or is killed has taken all of it or nothing.                    *)
(***************************************************************************)
EXTENDS Listing, Select, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)
Traces == D.traces
TraceStr(r) == D.strs[r]
KeyAt(r) == D.keys[r]
MsgAt(r) == D.msgs[r]
State(r) == LET s == D.states[r] IN
    [call |-> s.call, gs |-> s.gs, kl |-> s.kl, cols |-> s.cols, kcols |-> s.kcols,
     keys |-> [j \in 1..Len(s.keys) |-> KeyAt(s.keys[j])],
     msgs |-> [j \in 1..Len(s.msgs) |-> MsgAt(s.msgs[j])]]
IsStore(f) == f.k = "store"
\* The keys may have become known since.
SameFile(x, y) == x.by = y.by /\ (x.by = 0 => x.k = y.k)
Opens(f, key) == IsStore(f) /\ key \in SetOf(f.keys)

---------------------------------------------------------------------------
(* Selections                                                              *)
KeyOptions(o) == [all |-> o.all, or |-> o.or, used |-> o.used, unused |-> o.unused, comp |-> o.comp, expired |-> o.expired,
                  invalid |-> o.invalid, valid |-> o.valid, keepers |-> SetOf(o.keepers), ids |-> {UpperSeq(Str(x)) : x \in SetOf(o.ids)}]
MsgOptions(o) == [all |-> o.all, or |-> o.or, ids |-> SetOf(o.ids), to |-> SetOf(o.to), from |-> SetOf(o.from)]
PickKeys(s, o, now) == {j \in 1..Len(s.keys) : LET k == s.keys[j] IN
    SelectsKey(KeyOptions(o), [id |-> Str(k.id), keepers |-> SetOf(k.keepers), used |-> k.used, comp |-> k.comp, expm |-> k.expm], now)}
PickMsgs(s, o) == {j \in 1..Len(s.msgs) : LET m == s.msgs[j] IN SelectsMsg(MsgOptions(o), [id |-> m.id, rcpt |-> SetOf(m.rcpt), from |-> m.from])}
\* The members of seq at the indexes S, in order.
Picked(seq, S) == LET idx == SelectSeq([j \in 1..Len(seq) |-> j], LAMBDA j : j \in S) IN [x \in 1..Len(idx) |-> seq[idx[x]]]
Rows(r, ids) == SetOf(r.rows) = ids /\ Len(r.rows) = Cardinality(ids)
As(S, p) == S \cup {<<p, b[2]>> : b \in S}     \* the rules also count for p
Others(calls, own) == SelectSeq(calls, LAMBDA x : x # own)     \* a station does not keep its keys itself
OkR == [err |-> FALSE, panic |-> FALSE]

---------------------------------------------------------------------------
(* pre and post: the files; p and q: the content of the store before and   *)
(* after (q only if it is one).                                            *)
Want(e, pre, p) ==
    LET a == e.a IN
    CASE e.op \in {"klist", "mlist", "mrecv"} -> "ok"
      [] e.op = "kout" -> IF PickKeys(p, a.o, a.now) = {} THEN "any" ELSE "ok"
      [] e.op = "mout" -> IF PickMsgs(p, a.o) = {} THEN "any" ELSE "ok"
      [] e.op = "kgen" -> IF a.bad THEN "fail" ELSE "ok"
      [] e.op = "kdel" -> IF a.yes /\ \E j \in 1..Len(p.keys) : Str(p.keys[j].id) \in {UpperSeq(Str(x)) : x \in SetOf(a.ids)} THEN "ok" ELSE "any"
      [] e.op = "mdel" -> IF a.yes /\ \E j \in 1..Len(p.msgs) : p.msgs[j].id \in SetOf(a.ids) THEN "ok" ELSE "any"
      [] e.op = "kexp" -> IF pre[a.to].k # "absent" /\ ~a.yes THEN "fail"
                          ELSE IF PickKeys(p, a.o, a.now) = {} THEN "any" ELSE "ok"
      [] e.op = "kimp" -> IF a.wrong \/ ~Opens(pre[a.from], a.fkey) THEN "fail"
                          ELSE LET file == State(pre[a.from].st)
                                   ids == [j \in 1..Len(file.keys) |-> file.keys[j].id]
                               IN  IF ToImport(p, file, [ids |-> Picked(ids, PickKeys(file, a.o, a.now)), over |-> a.over]) = {} THEN "any" ELSE "ok"
      [] e.op = "msend" -> IF MustSucceed(p, Str(a.text), a.rcpt, a.x) THEN "ok" ELSE "any"
      [] e.op = "pfk" -> IF a.conflict THEN "fail" ELSE IF a.yes THEN "ok" ELSE "any"
      [] e.op = "init" -> IF a.key = NoRef \/ Len(Str(a.call)) < 2 \/ a.gs < 1 \/ a.kl < 20 \/ a.cols < 85 \/ a.kcols < a.gs THEN "fail"
                          ELSE IF pre[a.f].k # "absent" /\ ~a.yes THEN "fail"
                          ELSE IF a.bad THEN (IF a.n > 0 THEN "fail" ELSE "any") ELSE "ok"
      [] e.op = "bad" -> "fail"
      [] e.op = "pgen" -> "ok"
      [] OTHER -> "any"

\* The property that says that a command must not be refused, or must be.
WantProp(e) == CASE e.op \in {"klist", "kout", "mlist", "mout", "kdel", "mdel", "kexp", "kimp"} -> {"C20", "C21"}
                 [] e.op = "init" -> {"C11", "C21"}
                 [] e.op \in {"pfk", "pgen"} -> {"C22", "C21"}
                 [] e.op = "bad" -> {e.a.prop}
                 [] OTHER -> {"C21"}
RefuseProp(e) == CASE e.op \in {"kexp", "init"} -> {"C11"}
                   [] e.op = "kgen" -> {"C15"}
                   [] e.op \in {"pfk", "pgen"} -> {"C22"}
                   [] e.op = "kimp" -> {"C09", "C20"}
                   [] e.op = "bad" -> {e.a.prop}
                   [] OTHER -> {"C20"}
Target(e) == IF e.op = "kexp" THEN e.a.to ELSE e.a.f
Reads(e) == e.op \in {"klist", "kout", "mout", "kexp", "pgen", "bad"}     \* leave the store as it is

---------------------------------------------------------------------------
(* Messages *)
NewMsgRef(post, f) == LET s == D.states[post[f].st] IN s.msgs[Len(s.msgs)]
PrintedRules(e, post, q) ==
    MsgsRules([items |-> <<NewMsgRef(post, e.a.f)>>, dtgm |-> <<e.r.dtgm[Len(e.r.dtgm)]>>, gs |-> q.gs], [lines |-> e.r.lines, panic |-> FALSE])
\* The groups of traffic that were shown belong to a message that is in the
\* store with its keys used up.
NothingLost(e, pre, post) ==
    e.r.shown = <<>> \/
    /\ IsStore(post[e.a.f]) /\ IsStore(pre[e.a.f])
    /\ LET p == State(pre[e.a.f].st) q == State(post[e.a.f].st) IN
       \E j \in 1..Len(q.msgs) :
          LET m == q.msgs[j]
              d == Decipher(p.keys, p.gs, Str(m.kid), Str(m.ct))
          IN  /\ m \notin SetOf(p.msgs)
              /\ \A x \in 1..Len(e.r.shown) : Str(e.r.shown[x]) \in {Str(m.kid)} \cup SetOf(Chunks(Str(m.ct), p.gs))
              /\ \A x \in ChainOf(p, d) : \E y \in 1..Len(q.keys) : q.keys[y].id = p.keys[x].id /\ q.keys[y].used

ListMsgsRules(e, p, q) ==
    LET sel == PickMsgs(p, e.a.o) IN
    IF Len(q.msgs) # Len(p.msgs) THEN {<<"C20", "listing added or removed messages">>}
    ELSE LET deciphered == {j \in 1..Len(p.msgs) : Str(p.msgs[j].kid) = <<>> /\ Str(q.msgs[j].kid) # <<>>}
             chain == UNION {ChainOf(p, TryVerdict(p, Str(p.msgs[j].pt)).d) : j \in deciphered}
         IN  UNION {IF j \in sel THEN ListedRules(p, q, j) ELSE Rule(q.msgs[j] = p.msgs[j], "C20", "listing changed a message that is not selected") : j \in 1..Len(p.msgs)}
             \cup MarksRules(p, q, chain, "listing")

---------------------------------------------------------------------------
\* With a fault, what the program writes to its output may be lost.
Heard(e) == e.a.fault = "none"
Count(e, n) == IF Heard(e) THEN e.r.n ELSE n
SumRules(s, p) == Rule(s.known => s.keeper = p.call /\ s.keys = Len(p.keys) /\ s.msgs = Len(p.msgs), "C25", "a listing counts the store wrongly")
EffectOf(e, pre, post, p, q) ==
    LET a == e.a r == e.r IN
    CASE e.op = "klist" -> 
            LET S == PickKeys(p, a.o, a.now) IN
            IF ~Heard(e) THEN {} ELSE
            Rule(Rows(r, {p.keys[j].id : j \in S}), "C20", "the keys listed are not those selected")
            \cup SumRules(r.sum, p) \cup ListedKeys(Picked(p.keys, S), Picked(a.crem, S), r.head, r.ls)
      [] e.op = "mlist" ->
            As(Rule(~Heard(e) \/ Rows(r, {p.msgs[j].id : j \in PickMsgs(p, a.o)}), "C20", "the messages listed are not those selected")
               \cup ListMsgsRules(e, p, q), "C21")
            \cup (IF ~Heard(e) \/ Len(q.msgs) # Len(p.msgs) THEN {} ELSE SumRules(r.sum, p) \cup ListedMsgs(Picked(q.msgs, PickMsgs(p, a.o)), r.head, r.ls))
      [] e.op = "kout" ->
            LET S == PickKeys(p, a.o, a.now)
                items == Picked(D.states[pre[a.f].st].keys, S)
            IN  IF S # {} /\ ~r.has THEN {<<"C20", "selected keys are not written">>}
                ELSE IF ~r.has THEN {}
                ELSE As(IF a.pdf THEN PdfRules([sheets |-> Picked(a.sheets, S)], [toks |-> r.toks, outside |-> r.outside, overlap |-> r.overlap, noglyph |-> r.noglyph, err |-> FALSE, panic |-> FALSE])
                        ELSE KeysRules([items |-> items, crem |-> Picked(a.crem, S), gs |-> p.gs], [lines |-> r.lines, panic |-> FALSE]), "C20")
      [] e.op = "mout" ->
            LET S == PickMsgs(p, a.o)
                items == Picked(D.states[pre[a.f].st].msgs, S)
            IN  IF S # {} /\ ~r.has THEN {<<"C20", "selected messages are not written">>}
                ELSE IF ~r.has THEN {}
                ELSE As(IF a.pdf THEN PdfRules([sheets |-> Picked(a.sheets, S)], [toks |-> r.toks, outside |-> r.outside, overlap |-> r.overlap, noglyph |-> r.noglyph, err |-> FALSE, panic |-> FALSE])
                        ELSE MsgsRules([items |-> items, dtgm |-> Picked(a.dtgm, S), gs |-> p.gs], [lines |-> r.lines, panic |-> FALSE]), "C20")
      [] e.op = "kgen" -> As(GenerateRules(p, [n |-> a.n, keepers |-> Others(a.keepers, p.call), now |-> a.now, expm |-> a.expm, bad |-> a.bad], OkR, q), "C21")
      [] e.op = "kdel" -> As(As(IF a.yes THEN DeleteKeyRules(p, [ids |-> a.ids], [err |-> FALSE, panic |-> FALSE, n |-> Count(e, Len(p.keys) - Len(q.keys))], q)
                             ELSE Unchanged(p, q, "C20", "keys were deleted without asking"), "C20"), "C21")
      [] e.op = "mdel" -> As(As(IF a.yes THEN DeleteMsgRules(p, [ids |-> a.ids], [err |-> FALSE, panic |-> FALSE, n |-> Count(e, Len(p.msgs) - Len(q.msgs))], q)
                             ELSE Unchanged(p, q, "C20", "messages were deleted without asking"), "C20"), "C21")
      [] e.op = "dsome" ->
            IF a.what = "keys"
            THEN LET gone == {j \in 1..Len(p.keys) : p.keys[j] \notin SetOf(q.keys)} IN
                 Rule(gone \subseteq PickKeys(p, a.o, a.now), "C20", "a key was deleted that is not selected")
                 \cup Rule(r.n = Cardinality(gone) /\ Len(q.keys) = Len(p.keys) - r.n /\ SetOf(q.keys) \subseteq SetOf(p.keys)
                           /\ [q EXCEPT !.keys = <<>>] = [p EXCEPT !.keys = <<>>], "C20", "deleting keys did something else")
            ELSE \* the messages offered are tried to be read first
                 LET left == {m.id : m \in SetOf(q.msgs)}
                     gone == {j \in 1..Len(p.msgs) : p.msgs[j].id \notin left}
                     sel == PickMsgs(p, a.o)
                     now(j) == IF j \in gone THEN p.msgs[j] ELSE q.msgs[CHOOSE x \in 1..Len(q.msgs) : q.msgs[x].id = p.msgs[j].id]
                     all == [q EXCEPT !.msgs = [j \in 1..Len(p.msgs) |-> now(j)]]
                     readable == {j \in sel : Str(p.msgs[j].kid) = <<>> /\ (j \in gone \/ Str(now(j).kid) # <<>>)}
                     must == {j \in sel \ gone : Str(p.msgs[j].kid) = <<>> /\ Str(now(j).kid) # <<>>}
                     chain(S) == UNION {ChainOf(p, TryVerdict(p, Str(p.msgs[j].pt)).d) : j \in S}
                 IN
                 Rule(gone \subseteq sel, "C20", "a message was deleted that is not selected")
                 \cup Rule(r.n = Cardinality(gone) /\ Len(q.msgs) = Len(p.msgs) - r.n, "C20", "deleting messages did something else")
                 \cup Rule(SameSettings(p, q) /\ SameKeysModuloUsed(p, q), "C20", "deleting messages did something else")
                 \cup Rule(\A j \in 1..Len(p.msgs) : j \in sel \/ now(j) = p.msgs[j], "C20", "deleting messages did something else")
                 \cup UNION {ListedRules(p, all, j) : j \in sel \ gone}
                 \cup Rule(\A j \in 1..Len(p.keys) : /\ (p.keys[j].used => q.keys[j].used)
                                                     /\ (j \in chain(must) => q.keys[j].used)
                                                     /\ (q.keys[j].used => p.keys[j].used \/ j \in chain(readable)), "C21", "deleting messages marked the wrong keys")
      [] e.op = "kexp" ->
            IF ~IsStore(post[a.to]) \/ SameFile(pre[a.to], post[a.to])
            THEN (IF PickKeys(p, a.o, a.now) = {} /\ SameFile(pre[a.to], post[a.to]) THEN {} ELSE {<<"C20", "there is no export">>, <<"C21", "there is no export">>})
            ELSE As(ExportRules(p, [ids |-> Picked([j \in 1..Len(p.keys) |-> p.keys[j].id], PickKeys(p, a.o, a.now))],
                             [err |-> FALSE, panic |-> FALSE, file |-> State(post[a.to].st)], p), "C20")
                 \cup Rule(SetOf(post[a.to].keys) = {a.key}, "C22", "an export does not open with exactly the key given")
                 \cup Rule(~Heard(e) \/ r.n = Cardinality(PickKeys(p, a.o, a.now)), "C20", "wrong number of exported keys")
      [] e.op = "kimp" ->
            LET file == State(pre[a.from].st)
                ids == [j \in 1..Len(file.keys) |-> file.keys[j].id]
            IN  As(As(ImportRules(p, file, [ids |-> Picked(ids, PickKeys(file, a.o, a.now)), over |-> a.over], [err |-> FALSE, panic |-> FALSE, n |-> r.n], q), "C20"), "C21")
      [] e.op = "msend" ->
            IF Len(q.msgs) # Len(p.msgs) + 1 THEN {<<"C21", "a sent message is not saved">>}
            ELSE As(SendRules(p, [text |-> a.text, rcpt |-> a.rcpt, x |-> a.x, store |-> TRUE], [err |-> FALSE, panic |-> FALSE, msg |-> q.msgs[Len(q.msgs)]], q), "C21")
                 \cup (IF r.res = "ok" /\ Heard(e) THEN As(PrintedRules(e, post, q), "C21") ELSE {})
      [] e.op = "mrecv" ->
            IF Len(q.msgs) # Len(p.msgs) + 1 THEN {<<"C21", "a received message is not saved">>}
            ELSE As(RecvRules(p, [text |-> a.text, rcpt |-> a.rcpt, from |-> a.from, empty |-> a.empty], [err |-> FALSE, panic |-> FALSE, msg |-> q.msgs[Len(q.msgs)]], q), "C21")
                 \cup (IF r.res = "ok" /\ Heard(e) THEN As(PrintedRules(e, post, q), "C21") ELSE {})
      [] e.op = "pfk" -> Rule(p = q, "C22", "changing the key changed the content of the store")
      [] OTHER -> {}

\* The effect, with what the file itself is.
Effect(e, pre, post, p) ==
    LET a == e.a f == a.f IN
    IF e.op \in {"pgen", "bad"} THEN {}
    ELSE IF e.op = "init" THEN
        IF ~IsStore(post[f]) \/ SameFile(pre[f], post[f]) THEN {<<"C21", "there is no new store">>}
        ELSE LET q == State(post[f].st)
                 none == [call |-> a.call, gs |-> a.gs, kl |-> a.kl, cols |-> a.cols, kcols |-> a.kcols, keys |-> <<>>, msgs |-> <<>>]
             IN  As(GenerateRules(none, [n |-> a.n, keepers |-> Others(a.keepers, a.call), now |-> a.now, expm |-> a.expm, bad |-> FALSE], OkR, q), "C21")
                 \cup Rule(SetOf(post[f].keys) = {a.key}, "C22", "a new store does not open with exactly the key given")
    ELSE IF ~IsStore(post[f]) THEN {<<"C21", "the store is lost">>, <<"C10", "the store is lost">>}
             \cup (IF e.op = "pfk" THEN {<<"C22", "the store does not open with the new key">>} ELSE {})
    ELSE IF e.op = "pfk" THEN
        EffectOf(e, pre, post, p, State(post[f].st))
        \cup Rule(a.new # NoRef /\ a.new \in SetOf(post[f].keys), "C22", "the store does not open with the new key")
        \cup Rule(SetOf(post[f].keys) \subseteq {a.new}, "C22", "the store still opens with another key")
    ELSE EffectOf(e, pre, post, p, State(post[f].st))
         \cup Rule(SetOf(post[f].keys) = SetOf(pre[f].keys), "C22", "the key of the store has changed")

\* Nothing has happened.
Nothing(e, pre, post) == SameFile(pre[Target(e)], post[Target(e)]) /\ SameFile(pre[e.a.f], post[e.a.f])

HexDigit(x) == x \in (48..57) \cup (97..102) \cup (65..70)
GenRules(e) ==
    LET h == e.r.hex IN
    IF Len(h) # 1 THEN {<<"C22", "not exactly one key or salt was generated">>} ELSE
    Rule(Len(Str(h[1])) = 64 /\ \A j \in 1..64 : HexDigit(Str(h[1])[j]), "C22", "a generated key or salt is malformed")
    \cup Rule(e.a.want = NoRef \/ h[1] = e.a.want, "C22", "a derived key is wrong")
    \cup Rule(h[1] \notin SetOf(e.a.before), "C22", "a random key or salt is not fresh")

CliRules(e, pre, post) ==
    LET a == e.a r == e.r
        needs == e.op \notin {"init", "pgen", "bad"}
        opens == Opens(pre[a.f], a.key)
        p == IF needs /\ opens THEN State(pre[a.f].st) ELSE 0
        want == IF needs /\ ~opens THEN "fail" ELSE Want(e, pre, p)
        why == IF needs /\ ~opens THEN {"C22"} ELSE RefuseProp(e)
        same == Nothing(e, pre, post)
        frame == UNION {Rule(SameFile(pre[s], post[s]) \/ s = Target(e) \/ (s = a.f /\ ~Reads(e)), prp, "a file changed that the command does not write") :
                        s \in 1..Len(pre), prp \in {"C11", "C21"}}
        fault == a.fault # "none"
    IN
    frame
    \cup (IF e.op = "pfk" THEN Rule(~a.no \/ same, "C22", "the key was changed although the user said no") ELSE {})
    \cup (IF e.op \in {"msend"} THEN Rule(NothingLost(e, pre, post), "C21", "traffic was shown that is not saved") ELSE {})
    \cup (IF want = "fail" THEN
             UNION {Rule(fault \/ r.res # "ok", x, "a command that must be refused succeeded")
                    \cup Rule(fault \/ r.res # "died", x, "the program crashed")
                    \cup Rule(same, x, "a command that must be refused changed a file") : x \in why}
          ELSE IF r.res = "ok" THEN
             (IF want = "any" /\ same /\ e.op # "msend" THEN {} ELSE Effect(e, pre, post, p))
             \cup (IF e.op = "pgen" THEN GenRules(e) ELSE {})
          ELSE
             (IF fault THEN {}
              ELSE IF r.res = "died" THEN {<<x, "the program crashed">> : x \in WantProp(e)}
              ELSE IF want = "ok" THEN {<<x, "a command failed without reason">> : x \in WantProp(e)} ELSE {})
             \cup (IF same THEN {}
                   ELSE IF ~fault THEN {<<x, "a failed command changed a file">> : x \in WantProp(e)}
                   ELSE {<<x, b[2]>> : b \in Effect(e, pre, post, p), x \in {"C21", "C10"}}
                        \cup {b \in Effect(e, pre, post, p) : b[1] = "C22"}))

---------------------------------------------------------------------------
VARIABLES t, i, bad
Init == t \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Next ==
    /\ i < Len(Traces[t].events)
    /\ i' = i + 1
    /\ LET e == Traces[t].events[i + 1] IN
       bad' = IF e.op = "setup" THEN {} ELSE CliRules(e, Traces[t].events[i].r.files, e.r.files)
    /\ \A b \in bad' : PrintT(<<"BAD", t, i + 1, b[1], b[2]>>)
    /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, bad>>
View == <<t, i>>
=============================================================================
