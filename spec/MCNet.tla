------------------------------- MODULE MCNet -------------------------------
(***************************************************************************)
(* A model of a network of stations.  Stations generate keys, hand them    *)
(* over, send, receive, delete, save and load.  Every action is a          *)
(* reference implementation of an operation on the abstract state; it is   *)
(* checked against the same rules (Net, StationRules) that judge the       *)
(* implementation, and the rules are checked to imply the properties of    *)
(* the whole network (PadOnceAtStation, NetworkPadOnce, ReadUnchanged).    *)
(*                                                                         *)
(* Mut selects a deliberately wrong station, to show that the rules and    *)
(* the properties notice.  Mut = "none" is the design.                     *)
(*                                                                         *)
(* The log of commands is hidden by the view.  In simulation it is printed *)
(* and replayed into the implementation (driver mode "scenarios").         *)
(***************************************************************************)
EXTENDS Net, RealTables, TLC, Json, IOUtils
CONSTANTS NS,        \* stations
          MaxKeys,   \* keys generated in the whole network
          MaxSends, MaxRecv, MaxFiles, MaxLevel,
          Kl, Gs,
          Shared,    \* may one key be used by more than one station?
          Mut
ASSUME Kl % Gs = 0

Id(x) == x
NoText == <<>>
Stations == 1..NS
Call(s) == <<64 + s>>

VARIABLES st, h, mails, made, bad, log, uses, clean, recvs, exps
vars == <<st, h, mails, made, bad, log, uses, clean, recvs, exps>>

KeyRunes(c) == [j \in 1..Kl |-> Base + ((c * 5 + j * c + j * j) % N)]
KeyId(c) == [j \in 1..Gs |-> Base + (((c - 1) + j - 1) % N)]
Text1 == <<65>>
Text2 == <<65, 49, 97, 49, 65>>
TextBad == <<65, 33>>
Texts == {[w |-> 1, text |-> Text1], [w |-> 2, text |-> Text2], [w |-> 0, text |-> TextBad]}

EmptyStation(s) == [call |-> Call(s), gs |-> Gs, kl |-> Kl, cols |-> 80, kcols |-> 30, keys |-> <<>>, msgs |-> <<>>]
Init ==
    /\ st = [s \in Stations |-> EmptyStation(s)]
    /\ h = NoHistory(NS)
    /\ mails = <<>> /\ made = 0 /\ bad = {} /\ log = <<>> /\ uses = {}
    /\ clean = [s \in Stations |-> FALSE]
    /\ recvs = 0
    /\ exps = <<>>

Ok == [err |-> FALSE, panic |-> FALSE]
Fail == [err |-> TRUE, panic |-> FALSE, has |-> FALSE, msg |-> [ct |-> <<>>]]
Cmd(op, s) == [op |-> op, s |-> s - 1, t |-> 0, n |-> 1, j |-> 0, w |-> 0, x |-> 0, to |-> <<>>]
Say(c) == log' = Append(log, c)
ToList(calls) == [j \in 1..Len(calls) |-> calls[j][1] - 65]

\* Record the event e of a station that becomes pst.
Do(e, pst) ==
    /\ st' = [st EXCEPT ![e.s] = pst]
    /\ h' = Hist(h, e, st[e.s], pst)
    /\ bad' = OpRules(h, e, st[e.s], pst) \cup HistRules(h, e, st[e.s])

---------------------------------------------------------------------------
Gen(s, keepers) ==
    /\ made < MaxKeys
    /\ made' = made + 1
    /\ LET key == [id |-> KeyId(made + 1), runes |-> KeyRunes(made + 1), keepers |-> keepers, used |-> FALSE,
                   comp |-> FALSE, cre |-> 0, exp |-> 0, expm |-> Minutes365, cmt |-> <<>>]
       IN  /\ ~HasKey(st[s].keys, key.id)
           /\ Do([op |-> "gen", s |-> s, a |-> [n |-> 1, keepers |-> keepers, now |-> 0, expm |-> 0, bad |-> FALSE], r |-> Ok],
                 [st[s] EXCEPT !.keys = Append(@, key)])
    /\ Say([Cmd("gen", s) EXCEPT !.to = ToList(keepers)])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<mails, uses, recvs, exps>>

\* The keys a send uses: the first eligible ones, or the named one first.
InOrder(S) == SetToSortSeq(S, <)
Mine(s) == {j \in 1..Len(st[s].keys) : Shared \/ (st[s].keys[j].runes[1] + s) % 2 = 0}
Choice(s, rcpt, x) ==
    LET e == Eligible(st[s], rcpt) \cap Mine(s)
        named == {j \in 1..Len(st[s].keys) : st[s].keys[j].id = x /\ Usable(st[s].keys[j], Gs)}
    IN  IF x = NoRef THEN InOrder(e)
        ELSE IF named = {} THEN <<>>
        ELSE LET n == CHOOSE j \in named : TRUE IN <<n>> \o InOrder(e \ {n})

Send(s, rcpt, tx, x) ==
    /\ Len(mails) < MaxSends
    /\ LET ks == Choice(s, rcpt, x)
           e  == IF Supported(tx.text) /\ (Shared \/ \A j \in 1..Len(st[s].keys) : st[s].keys[j].id = x => j \in Mine(s))
                 THEN Encipher(tx.text, Gs, [j \in 1..Len(ks) |-> [id |-> st[s].keys[ks[j]].id, runes |-> st[s].keys[ks[j]].runes]], TRUE)
                 ELSE [ok |-> FALSE, ct |-> <<>>, used |-> 0]
           m  == [id |-> <<s, Len(st[s].msgs) + 1, Len(log)>>, rcpt |-> rcpt, from |-> Call(s), dtg |-> 0, dtgs |-> 0,
                  kid |-> IF e.ok THEN st[s].keys[ks[1]].id ELSE <<>>, pt |-> tx.text, ct |-> e.ct, bin |-> <<>>, rg |-> <<>>]
           a  == [text |-> tx.text, rcpt |-> rcpt, x |-> x, store |-> TRUE]
           chain == {ks[j] : j \in 1..e.used}
           marked == CASE Mut = "nomark"   -> {}
                       [] Mut = "markfirst" -> {ks[1]}
                       [] OTHER -> chain
       IN IF e.ok
          THEN /\ Do([op |-> "ntm", s |-> s, a |-> a, r |-> [err |-> FALSE, panic |-> FALSE, has |-> TRUE, msg |-> m]],
                     [st[s] EXCEPT !.keys = [j \in 1..Len(@) |-> IF j \in marked THEN [@[j] EXCEPT !.used = TRUE] ELSE @[j]],
                                   !.msgs = Append(@, m)])
               /\ mails' = Append(mails, [from |-> s, m |-> m, uids |-> {Uid(st[s].keys[j]) : j \in chain}])
               /\ uses' = uses \cup {<<Uid(st[s].keys[j]), s, Len(mails) + 1>> : j \in chain}
          ELSE /\ Do([op |-> "ntm", s |-> s, a |-> a, r |-> Fail],
                     IF Mut = "markfailed" /\ ks # <<>> THEN [st[s] EXCEPT !.keys[ks[1]].used = TRUE] ELSE st[s])
               /\ UNCHANGED <<mails, uses>>
    /\ Say([Cmd("send", s) EXCEPT !.to = ToList(rcpt), !.w = tx.w,
              !.x = IF x = NoRef THEN 0 ELSE 1, !.j = IF x = NoRef THEN 0 ELSE (CHOOSE j \in 1..Len(st[s].keys) : st[s].keys[j].id = x) - 1])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<made, recvs, exps>>

Recv(s, k) ==
    /\ mails[k].from # s
    /\ recvs < MaxRecv /\ recvs' = recvs + 1
    /\ LET o == mails[k].m
           text == o.kid \o o.ct
           t == TryVerdict(st[s], text)
           yes == t.v = "yes"
           m == [o EXCEPT !.id = <<s, Len(st[s].msgs) + 1, Len(log)>>, !.rcpt = IF o.rcpt = <<>> THEN <<Call(s)>> ELSE o.rcpt,
                          !.pt = IF yes THEN t.d.out ELSE text, !.kid = IF yes THEN TrafficKey(st[s], text) ELSE <<>>,
                          !.ct = IF yes THEN TrafficText(st[s], text) ELSE <<>>]
           chain == IF yes /\ Mut # "recvnomark" THEN ChainOf(st[s], t.d) ELSE {}
       IN  Do([op |-> "recv", s |-> s,
               a |-> [text |-> text, rcpt |-> o.rcpt, from |-> o.from, empty |-> <<>>, printed |-> TRUE, orig |-> o,
                      chain |-> SetToSeq({[id |-> u[1], runes |-> u[2]] : u \in mails[k].uids}), count |-> 1 + Len(o.ct) \div Gs, groups |-> 1 + Len(o.ct) \div Gs, gs |-> Gs],
               r |-> [err |-> FALSE, panic |-> FALSE, has |-> TRUE, msg |-> m]],
              [st[s] EXCEPT !.keys = [j \in 1..Len(@) |-> IF j \in chain THEN [@[j] EXCEPT !.used = TRUE] ELSE @[j]],
                            !.msgs = Append(@, m)])
    /\ Say([Cmd("recv", s) EXCEPT !.j = Cardinality({x \in 1..(k - 1) : mails[x].from # s})])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<mails, made, uses, exps>>

\* Trying again to read what could not be read.
Try(s, j) ==
    /\ st[s].msgs[j].kid = <<>>
    /\ LET b == st[s].msgs[j]
           t == TryVerdict(st[s], b.pt)
           yes == t.v = "yes"
           p == IF yes THEN [b EXCEPT !.pt = t.d.out, !.kid = TrafficKey(st[s], b.pt), !.ct = TrafficText(st[s], b.pt)] ELSE b
           chain == IF yes /\ Mut # "recvnomark" THEN ChainOf(st[s], t.d) ELSE {}
       IN  Do([op |-> "try", s |-> s, a |-> [j |-> j, dry |-> FALSE], r |-> [err |-> ~yes, panic |-> FALSE]],
              [st[s] EXCEPT !.keys = [x \in 1..Len(@) |-> IF x \in chain THEN [@[x] EXCEPT !.used = TRUE] ELSE @[x]],
                            !.msgs[j] = p])
    /\ Say([Cmd("try", s) EXCEPT !.j = j - 1])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<mails, made, uses, recvs, exps>>

Comp(s, j) ==
    /\ ~st[s].keys[j].comp
    /\ Do([op |-> "comp", s |-> s, a |-> [j |-> j], r |-> Ok], [st[s] EXCEPT !.keys[j].comp = TRUE])
    /\ Say([Cmd("comp", s) EXCEPT !.j = j - 1])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<mails, made, uses, recvs, exps>>

DelKey(s, j) ==
    /\ LET keys == st[s].keys
           gone == IF Mut = "delother" /\ Len(keys) > 1 THEN 1 ELSE j IN
       Do([op |-> "delkey", s |-> s, a |-> [ids |-> <<keys[j].id>>], r |-> [err |-> FALSE, panic |-> FALSE, n |-> 1]],
          \* The implementation moves the last key to the free place.
          [st[s] EXCEPT !.keys = [x \in 1..(Len(keys) - 1) |-> IF x = gone THEN keys[Len(keys)] ELSE keys[x]]])
    /\ Say([Cmd("delkey", s) EXCEPT !.j = j - 1])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<mails, made, uses, recvs, exps>>

\* Export of the unused keys that t keeps, and of all.
Export(s, t, all) ==
    /\ Len(exps) < MaxFiles
    /\ LET sel == {j \in 1..Len(st[s].keys) : all \/ (~st[s].keys[j].used /\ Call(t) \in SetOf(st[s].keys[j].keepers))}
           ks == [x \in 1..Cardinality(sel) |-> st[s].keys[InOrder(sel)[x]]]
           ids == [x \in 1..Len(ks) |-> ks[x].id]
           file == [EmptyStation(s) EXCEPT !.keys = IF Mut = "exportfresh" THEN [x \in 1..Len(ks) |-> [ks[x] EXCEPT !.used = FALSE]] ELSE ks]
           f == 100 + Len(exps)
       IN  /\ sel # {}
           /\ Do([op |-> "export", s |-> s, a |-> [f |-> f, ids |-> ids], r |-> [err |-> FALSE, panic |-> FALSE, file |-> file, has |-> TRUE]], st[s])
           /\ exps' = Append(exps, [f |-> f, ids |-> ids, from |-> s])
    /\ Say([Cmd("export", s) EXCEPT !.t = t - 1, !.x = IF all THEN 0 ELSE 101])
    /\ UNCHANGED <<mails, made, uses, clean, recvs>>

Import(s, k, over) ==
    /\ exps[k].from # s
    /\ LET f == h.files[exps[k].f].st
           a == [f |-> exps[k].f, ids |-> exps[k].ids, over |-> over]
           imp == ToImport(st[s], f, a)
           ids == {f.keys[j].id : j \in imp}
           kept == SelectSeq(st[s].keys, LAMBDA key : key.id \notin ids)
           new == [x \in 1..Cardinality(imp) |-> LET key == f.keys[InOrder(imp)[x]] IN
                     [key EXCEPT !.keepers = SetToSeq((SetOf(@) \ {Call(s)}) \cup {f.call}),
                                 !.used = IF Mut = "importfresh" THEN FALSE ELSE @]]
       IN  Do([op |-> "import", s |-> s, a |-> a, r |-> [err |-> FALSE, panic |-> FALSE, n |-> Cardinality(imp)]],
              [st[s] EXCEPT !.keys = kept \o new])
    /\ Say([Cmd("import", s) EXCEPT !.j = k - 1, !.x = IF over THEN 4 ELSE 100])
    /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<mails, made, uses, recvs, exps>>

Save(s) ==
    /\ ~clean[s]
    /\ Do([op |-> "save", s |-> s, a |-> [f |-> s], r |-> Ok], st[s])
    /\ Say(Cmd("save", s))
    /\ clean' = [clean EXCEPT ![s] = TRUE]
    /\ UNCHANGED <<mails, made, uses, recvs, exps>>
Load(s) ==
    /\ clean[s]
    /\ Do([op |-> "load", s |-> s, a |-> [f |-> s], r |-> Ok],
          IF Mut = "loadfresh" THEN [st[s] EXCEPT !.keys = [j \in 1..Len(@) |-> [@[j] EXCEPT !.used = FALSE]]] ELSE st[s])
    /\ Say(Cmd("load", s))
    /\ UNCHANGED <<mails, made, uses, clean, recvs, exps>>

KeeperChoices(s) == {<<>>} \cup {<<Call(t)>> : t \in Stations \ {s}}
Next ==
    /\ TLCGet("level") <= MaxLevel
    /\ \E s \in Stations :
       \/ \E k \in KeeperChoices(s) : Gen(s, k)
       \/ \E k \in KeeperChoices(s), tx \in Texts, x \in {NoRef} \cup {st[s].keys[j].id : j \in 1..Len(st[s].keys)} : Send(s, k, tx, x)
       \/ \E k \in 1..Len(mails) : Recv(s, k)
       \/ \E j \in 1..Len(st[s].msgs) : Try(s, j)
       \/ \E j \in 1..Len(st[s].keys) : Comp(s, j) \/ DelKey(s, j)
       \/ \E t \in Stations \ {s}, all \in BOOLEAN : Export(s, t, all)
       \/ \E k \in 1..Len(exps), over \in BOOLEAN : Import(s, k, over)
       \/ Save(s) \/ Load(s)
Spec == Init /\ [][Next]_vars

\* For simulation: a few steps drawn at random, so that not all successors of
\* every state are computed, and useful operations are more frequent.
Pick(S) == RandomElement(S)
SimStep(n) ==
    \E s \in {Pick(Stations)}, o \in {Pick(1..26)}, x \in {Pick(1..4)} :
    LET held == {st[s].keys[j].id : j \in 1..Len(st[s].keys)}
        calls == {Call(t) : t \in Stations \ {s}}
        used == {st[s].keys[j].keepers : j \in 1..Len(st[s].keys)} \cup {<<>>}
    IN  CASE o <= 4 -> Gen(s, IF x = 1 THEN <<>> ELSE <<Pick(calls)>>)
          [] o \in 5..9 -> Send(s, Pick({IF x = 1 THEN <<>> ELSE <<Pick(calls)>>} \cup {k \in used : Len(k) < 2}),
                                 IF x = 2 THEN Pick(Texts) ELSE Pick({y \in Texts : y.w > 0}),
                                 IF x = 3 /\ held # {} THEN Pick(held) ELSE NoRef)
          [] o \in 10..15 -> mails # <<>> /\ Recv(s, Pick(1..Len(mails)))
          [] o = 16 -> st[s].msgs # <<>> /\ Try(s, Pick(1..Len(st[s].msgs)))
          [] o = 17 -> st[s].keys # <<>> /\ Comp(s, Pick(1..Len(st[s].keys)))
          [] o = 18 -> st[s].keys # <<>> /\ DelKey(s, Pick(1..Len(st[s].keys)))
          [] o \in 19..20 -> Export(s, Pick(Stations \ {s}), x = 1)
          [] o \in 21..24 -> exps # <<>> /\ Import(s, Pick(1..Len(exps)), x = 1)
          [] o = 25 -> Save(s)
          [] OTHER -> Load(s)
SimNext == /\ TLCGet("level") <= MaxLevel
           /\ \E n \in 1..12 : SimStep(n)
SimSpec == Init /\ [][SimNext]_vars

---------------------------------------------------------------------------
KnownCrossing == <<"C24", "KNOWN crossing traffic: both stations used a shared key before hearing of it">>
RulesHold == bad \subseteq {KnownCrossing}
NoCrossing == bad = {}
\* The properties of the whole system, from what was sent and not from marks.
\* Deleting a key and getting it back, or overwriting one, is excluded here.
Returned == \E l \in 1..Len(log) : log[l].op = "delkey" \/ (log[l].op = "import" /\ log[l].x = 4)
PadOnceAtStation == Returned \/ \A u, v \in uses : (u[1] = v[1] /\ u[2] = v[2]) => u = v
NetworkPadOnce == Returned \/ \A u, v \in uses : u[1] = v[1] => u = v
UsedIsMarked == Returned \/ \A u \in uses : \A j \in 1..Len(st[u[2]].keys) : Uid(st[u[2]].keys[j]) = u[1] => st[u[2]].keys[j].used

\* For simulation: print the commands of a finished behaviour.
PrintLog == Len(log) # MaxLevel \/ PrintT("SCENARIO " \o ToJson(log))
View == <<st, h, mails, made, bad, uses, clean, recvs, exps, Returned>>
=============================================================================
