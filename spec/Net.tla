-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* A network of stations that generate, exchange, use and delete keys and  *)
(* messages: which rules of StationRules an event must satisfy, and the    *)
(* history needed for the properties of whole histories - which keys have  *)
(* enciphered at a station (C02), whose use a station knows of (C24) and   *)
(* what files hold (C08, C12).  Used by the model of the network (MCNet)   *)
(* and by the trace specification of the implementation (NetTrace).        *)
(*                                                                         *)
(* An event is [op, s, a, r]: operation, station, arguments, result.       *)
(* KeyOfRef, MsgOfRef and StOfRef give the value of references (identity   *)
(* in the model); NoRef is the reference to nothing.                       *)
(***************************************************************************)
EXTENDS StationRules
CONSTANTS KeyOfRef(_), MsgOfRef(_), StOfRef(_)

Uid(k) == <<k.id, k.runes>>
Uids(keys) == {Uid(keys[j]) : j \in 1..Len(keys)}

\* History h: enc[s] - keys station s has enciphered with and that did not
\* legitimately come back; known[s] - keys whose use by anyone s knows of;
\* sent - keys that have enciphered something anywhere; files - what files hold.
NoHistory(n) == [enc |-> [s \in 1..n |-> {}], known |-> [s \in 1..n |-> {}], sent |-> {}, files |-> <<>>]
PutFile(files, f, v) == [x \in DOMAIN files \cup {f} |-> IF x = f THEN v ELSE files[x]]

ChainUids(pre, m) ==
    LET d == Decipher(pre.keys, pre.gs, Str(m.kid), Str(m.ct)) IN {Uid(pre.keys[j]) : j \in ChainOf(pre, d)}
NewlyMarked(pre, pst) ==
    {Uid(pst.keys[j]) : j \in {x \in 1..Len(pst.keys) : x <= Len(pre.keys) /\ pst.keys[x].used /\ ~pre.keys[x].used}}

\* Rules of the whole history for a send with these keys at station s.
ReuseRules(h, s, chain) ==
    Rule(chain \cap h.enc[s] = {}, "C02", "a key enciphers a second message at this station")
    \cup Rule(chain \cap h.enc[s] = {}, "C24", "a key enciphers a second message at this station")
    \cup Rule(chain \cap (h.known[s] \ h.enc[s]) = {}, "C24", "a key whose use by another station is known enciphers a message")
    \cup Rule(chain \cap (h.known[s] \ h.enc[s]) = {}, "C05", "a key of received traffic enciphers a message")
    \cup Rule(chain \cap (h.sent \ h.known[s]) = {}, "C24", "KNOWN crossing traffic: both stations used a shared key before hearing of it")

\* Radiogram traffic entered at a station that holds the same keys (C17).
\* ok: whether the text of the printed traffic is what the receiver has.
PrintedRules(pre, e) ==
    IF ~e.a.printed \/ e.r.panic \/ e.r.err THEN {} ELSE
    LET o == MsgOfRef(e.a.orig)
        m == MsgOfRef(e.r.msg)
        held == \A c \in 1..Len(e.a.chain) : \E j \in 1..Len(pre.keys) : KeyOfRef(e.a.chain[c]).id = pre.keys[j].id /\ KeyOfRef(e.a.chain[c]).runes = pre.keys[j].runes
    IN  Rule(~held \/ m.pt = o.pt, "C17", "printed traffic was not read as the original text")
        \cup Rule(m.from = o.from, "C17", "printed traffic has another sender")
        \cup Rule(m.dtgs = o.dtgs, "C17", "printed traffic has another date-time")
        \cup Rule(e.a.count = e.a.groups, "C17", "the group count is not the number of groups printed")
        \cup Rule(e.a.groups = 1 + Len(Str(o.ct)) \div e.a.gs, "C17", "printed traffic does not have all groups")

MsgOrNone(r) == IF r.has THEN MsgOfRef(r.msg) ELSE r.msg

OpRules(h, e, pre, pst) ==
    LET a == e.a  r == e.r IN
    CASE e.op = "ntm"    -> SendRules(pre, a, [r EXCEPT !.msg = MsgOrNone(r)], pst)
      [] e.op = "enc"    -> SendRules(pre, a, [r EXCEPT !.msg = MsgOfRef(@)], pst)
      [] e.op = "resend" -> ResendRules(pre, a, r, pst)
      [] e.op = "recv"   -> RecvRules(pre, a, [r EXCEPT !.msg = MsgOrNone(r)], pst) \cup PrintedRules(pre, e)
      [] e.op = "try"    -> TryRules(pre, a, r, pst)
      [] e.op = "deciph" -> DecipherRules(pre, a, r, pst)
      [] e.op = "list"   -> ListRules(pre, a, r, pst)
      [] e.op = "look"   -> LookRules(pre, a, r, pst)
      [] e.op = "delkey" -> DeleteKeyRules(pre, a, r, pst)
      [] e.op = "delmsg" -> DeleteMsgRules(pre, a, r, pst)
      [] e.op = "gen"    -> GenerateRules(pre, a, r, pst)
      [] e.op = "comp"   -> CompromiseRules(pre, a, r, pst)
      [] e.op = "keeper" -> KeeperRules(pre, a, r, pst)
      [] e.op = "wipekey" -> WipeKeyRules(pre, a, r, pst)
      [] e.op = "wipemsg" -> WipeMsgRules(pre, a, r, pst)
      [] e.op = "save"   -> SaveRules(pre, a, r, pst)
      [] e.op = "load"   -> LoadRules(h.files[a.f].st, a, r, pst)
      [] e.op = "export" -> ExportRules(pre, a, IF r.has THEN [r EXCEPT !.file = StOfRef(@)] ELSE r, pst)
      [] e.op = "import" -> ImportRules(pre, h.files[a.f].st, a, r, pst)
      [] e.op = "put"    -> {}     \* the driver put a message in the store

\* The history after event e at a station that went from pre to pst, and the
\* rules of histories it breaks.
Hist(h, e, pre, pst) ==
    LET s == e.s  a == e.a  r == e.r
        good == ~r.panic /\ ~r.err
        res(encs, knowns, sents, fs) == [h EXCEPT !.enc[s] = encs, !.known[s] = knowns, !.sent = sents, !.files = fs]
    IN
    CASE e.op \in {"ntm", "enc"} /\ good ->
            LET c == ChainUids(pre, MsgOfRef(r.msg)) IN
            res(h.enc[s] \cup c, h.known[s] \cup c, h.sent \cup c, h.files)
      [] e.op \in {"recv", "try", "deciph", "list"} /\ ~r.panic ->
            LET \* What the specification says has been read.
                c == IF e.op = "recv" /\ good
                     THEN LET v == TryVerdict(pre, Str(a.text)) IN
                          IF v.v = "yes" THEN {Uid(pre.keys[j]) : j \in ChainOf(pre, v.d)} ELSE {}
                     ELSE {}
            IN  res(h.enc[s], h.known[s] \cup c \cup NewlyMarked(pre, pst), h.sent, h.files)
      [] e.op = "save" /\ good ->
            res(h.enc[s], h.known[s], h.sent, PutFile(h.files, a.f, [st |-> pst, enc |-> h.enc[s], known |-> h.known[s]]))
      [] e.op = "load" /\ good ->
            res(h.files[a.f].enc, h.files[a.f].known, h.sent, h.files)
      [] e.op = "export" /\ good /\ r.has ->
            LET x == StOfRef(r.file) IN
            res(h.enc[s], h.known[s], h.sent,
                PutFile(h.files, a.f, [st |-> x, enc |-> {}, known |-> h.known[s] \cap Uids(x.keys)]))
      [] e.op = "import" /\ good ->
            LET f == h.files[a.f]
                imp == {Uid(f.st.keys[j]) : j \in ToImport(pre, f.st, a)}
                \* Keys that legitimately came back unused (deleted or overwritten here).
                back == imp \ f.known
            IN  res(h.enc[s] \ back, (h.known[s] \ back) \cup (imp \cap f.known), h.sent \ (back \cap h.known[s]), h.files)
      [] OTHER -> h
HistRules(h, e, pre) ==
    IF e.op \in {"ntm", "enc"} /\ ~e.r.panic /\ ~e.r.err
    THEN ReuseRules(h, e.s, ChainUids(pre, MsgOfRef(e.r.msg)))
    ELSE {}

=============================================================================
