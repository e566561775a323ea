---------------------------- MODULE StationRules ----------------------------
(***************************************************************************)
(* What each operation of a station may do.  A station is                  *)
(*   [call, gs, kl, cols, kcols, keys, msgs]                               *)
(* with keys a sequence of                                                 *)
(*   [id, runes, keepers, used, comp, cre, exp, expm, cmt]                 *)
(* and msgs a sequence of                                                  *)
(*   [id, rcpt, from, dtg, dtgs, kid, pt, ct, bin, rg].                    *)
(* Text valued fields are references; Str(ref) is the sequence of code     *)
(* points.  References are unique, so that equal references mean equal     *)
(* text.  In the model Str is the identity, in traces of the               *)
(* implementation it is a table lookup.                                    *)
(*                                                                         *)
(* For every operation there is an operator XxxRules(pre, a, r, post, ..)  *)
(* with the state before, the arguments, the result and the state after.   *)
(* Its value is the set of broken rules, pairs <<property, what>>.  The    *)
(* model (MCStation) checks that a reference implementation breaks no rule *)
(* and that the rules imply the system wide properties; the trace          *)
(* specification (NetTrace) evaluates the rules on what the code did.      *)
(***************************************************************************)
EXTENDS Codec, FiniteSetsExt

CONSTANTS Str(_), NoRef    \* NoRef: no reference

Rule(cond, prop, what) == IF cond THEN {} ELSE {<<prop, what>>}

\* Key material for a key id (a sequence of letters) in a sequence of keys.
KeyOf(keys, id) ==
    IF \E j \in 1..Len(keys) : Str(keys[j].id) = id
    THEN Str(keys[CHOOSE j \in 1..Len(keys) : Str(keys[j].id) = id].runes)
    ELSE <<>>
Decipher(keys, gs, id, ct) ==
    LET of(x) == KeyOf(keys, x) IN Decode(id, ct, gs, of)
HasKey(keys, id) == \E j \in 1..Len(keys) : Str(keys[j].id) = id

UpperSeq(s) == [j \in 1..Len(s) |-> Upper(s[j])]
SetOf(s) == {s[j] : j \in 1..Len(s)}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

---------------------------------------------------------------------------
(* Eligible keys for a message (C03).                                      *)
Kept(key, rcpt) == IF rcpt = <<>> THEN key.keepers = <<>>
                   ELSE SetOf(rcpt) \subseteq SetOf(key.keepers)
Usable(key, gs) == ~key.used /\ ~key.comp /\ Len(Str(key.id)) = gs
Eligible(st, rcpt) == {j \in 1..Len(st.keys) : Usable(st.keys[j], st.gs) /\ Kept(st.keys[j], rcpt)}

\* Keys that may be used for a send with explicit key x (a reference, or 0).
Candidates(st, rcpt, x) ==
    Eligible(st, rcpt) \cup
    (IF x = NoRef THEN {} ELSE {j \in 1..Len(st.keys) : st.keys[j].id = x /\ Usable(st.keys[j], st.gs)})

MustSucceed(st, text, rcpt, x) ==
    LET e == Candidates(st, rcpt, x)
        lens == {Len(Str(st.keys[j].runes)) : j \in e}
    IN  /\ text # <<>> /\ Supported(text)
        /\ e # {}
        /\ x # NoRef => \E j \in e : st.keys[j].id = x
        /\ UsableLength(Min(lens), st.gs)
        /\ NeedKeys(text, Min(lens), st.gs) <= Cardinality(e)

---------------------------------------------------------------------------
(* Frame conditions.                                                       *)
SameSettings(pre, post) ==
    /\ post.call = pre.call /\ post.gs = pre.gs /\ post.kl = pre.kl
    /\ post.cols = pre.cols /\ post.kcols = pre.kcols
SameKeysBut(pre, post, marked) ==   \* only the used marks of "marked" are set
    /\ Len(post.keys) = Len(pre.keys)
    /\ \A j \in 1..Len(pre.keys) :
          post.keys[j] = IF j \in marked THEN [pre.keys[j] EXCEPT !.used = TRUE] ELSE pre.keys[j]
\* As above, not looking at the marks.
SameKeysModuloUsed(pre, post) ==
    /\ Len(post.keys) = Len(pre.keys)
    /\ \A j \in 1..Len(pre.keys) :
          [post.keys[j] EXCEPT !.used = TRUE] = [pre.keys[j] EXCEPT !.used = TRUE]
SameMsgsBut(pre, post, changed) ==
    /\ Len(post.msgs) = Len(pre.msgs)
    /\ \A j \in 1..Len(pre.msgs) : j \in changed \/ post.msgs[j] = pre.msgs[j]
OneMsgAdded(pre, post) ==
    /\ Len(post.msgs) = Len(pre.msgs) + 1
    /\ SubSeq(post.msgs, 1, Len(pre.msgs)) = pre.msgs
Unchanged(pre, post, p, what) == Rule(post = pre, p, what)

---------------------------------------------------------------------------
(* Enciphering.  a: text, rcpt, x (0 or the named key), store (TRUE when   *)
(* the message is to be stored); r: err, msg.                              *)
ChainOf(st, dec) == {j \in 1..Len(st.keys) : \E k \in 1..Len(dec.chain) : Str(st.keys[j].id) = dec.chain[k]}

FailedSendRules(pre, a, r, post) ==
    Rule(~MustSucceed(pre, Str(a.text), a.rcpt, a.x), "C01", "refused although there are enough keys for the text")
    \cup Rule(SameSettings(pre, post) /\ SameKeysModuloUsed(pre, post), "C04", "a failed send changed a key")
    \cup (IF Len(pre.keys) # Len(post.keys) THEN {}
          ELSE Rule(\A j \in 1..Len(pre.keys) : pre.keys[j].used = post.keys[j].used, "C04",
                    "a failed send changed a used mark")
               \cup Rule(\A j \in 1..Len(pre.keys) : pre.keys[j].used => post.keys[j].used, "C02",
                    "a failed send made a used key usable again"))
    \cup Rule(pre.msgs = post.msgs, "C04", "a failed send changed the messages")
    \cup Rule(a.store \/ Str(r.msg.ct) = <<>>, "C04", "a failed send left cipher text on the message")

GoodSendRules(pre, a, r, post) ==
    LET m     == r.msg
        text  == Str(a.text)
        kid   == Str(m.kid)
        ct    == Str(m.ct)
        dec   == Decipher(pre.keys, pre.gs, kid, ct)
        sound == dec.stat = "ok" /\ ~dec.pending
        chain == ChainOf(pre, dec)
        named == {j \in chain : pre.keys[j].id = a.x}
    IN
    \* The traffic (C01)
       Rule(ct # <<>> /\ \A j \in 1..Len(ct) : ct[j] \in Letters, "C01", "cipher text is not only letters A-Z")
    \cup Rule(Len(ct) % pre.gs = 0, "C01", "cipher text is not whole groups")
    \cup Rule(Supported(text) /\ text # <<>>, "C01", "text with an unsupported character or no text was enciphered")
    \cup Rule(sound /\ dec.out = text, "C01", "cipher text does not decipher to the text")
    \* The keys (C02, C03)
    \cup Rule(NoDup(dec.chain), "C02", "a key is used for two parts of one message")
    \cup Rule(\A j \in chain : ~pre.keys[j].used, "C02", "a used key enciphers a message")
    \cup Rule(\A j \in chain : ~pre.keys[j].used, "C03", "a used key enciphers a message")
    \cup Rule(\A j \in chain : ~pre.keys[j].comp, "C03", "a compromised key enciphers a message")
    \cup Rule(\A k \in 1..Len(dec.chain) : HasKey(pre.keys, dec.chain[k]) \/ ~sound, "C03", "a key that is not in the store enciphers a message")
    \cup Rule(Len(kid) = pre.gs, "C03", "a key with an id of the wrong length enciphers a message")
    \cup Rule(\A j \in chain \ named : Kept(pre.keys[j], a.rcpt), "C03", "a key not kept by every recipient enciphers a message")
    \cup Rule(a.x = NoRef \/ m.kid = a.x, "C03", "the named key was not the one used")
    \cup Rule(a.x = NoRef \/ \E j \in 1..Len(pre.keys) : pre.keys[j].id = a.x /\ Usable(pre.keys[j], pre.gs),
              "C03", "a named key that does not exist, is used, compromised or of the wrong length was accepted")
    \cup (IF Len(pre.keys) # Len(post.keys) THEN {}
          ELSE Rule(\A j \in chain : post.keys[j].used, "C02", "a key that enciphered a message is not marked used")
               \cup Rule(\A j \in 1..Len(pre.keys) : pre.keys[j].used => post.keys[j].used, "C02",
                         "a send made a used key usable again")
               \cup Rule(~sound \/ \A j \in 1..Len(pre.keys) : j \in chain \/ (post.keys[j].used => pre.keys[j].used),
                         "C13", "a send marked a key it did not use"))
    \* The frame (C13)
    \cup Rule(SameSettings(pre, post) /\ SameKeysModuloUsed(pre, post), "C13", "a send changed a key or a setting")
    \cup (IF a.store
          THEN Rule(OneMsgAdded(pre, post), "C13", "a send did not add exactly one message")
               \cup Rule(~OneMsgAdded(pre, post) \/ post.msgs[Len(post.msgs)] = m, "C13", "the stored message differs from the returned one")
               \cup Rule(m.pt = a.text, "C01", "the stored text differs from what was sent")
               \cup Rule(m.rcpt = a.rcpt /\ m.from = pre.call, "C18", "wrong sender or recipients of a sent message")
          ELSE Rule(post.msgs = pre.msgs, "C13", "enciphering changed another message")
               \cup Rule(m.pt = a.text, "C01", "enciphering changed the text"))
    \cup Rule(Str(m.id) # <<>> /\ \A j \in 1..Len(pre.msgs) : pre.msgs[j].id # m.id, "C13", "message id is not unique")

SendRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C04", "a send crashed">>}
    ELSE IF r.err THEN FailedSendRules(pre, a, r, post)
    ELSE GoodSendRules(pre, a, r, post)

\* Enciphering a message again whose key is no longer usable.
ResendRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C04", "a send crashed">>} ELSE
    Rule(r.err, "C02", "a used key enciphers a message")
    \cup Rule(r.err, "C03", "a key that is not eligible enciphers a message")
    \cup (IF r.err THEN Unchanged(pre, post, "C04", "a failed send changed the store") ELSE {})

---------------------------------------------------------------------------
(* Deciphering.  Traffic: the letters of a text, without white space and   *)
(* "=" and in upper case.                                                  *)
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160}
Filtered(text) == UpperSeq(SelectSeq(text, LAMBDA c : ~IsSpace(c) /\ c # 61))
LooksEnciphered(st, text) ==
    LET f == Filtered(text) IN
    /\ \A j \in 1..Len(f) : f[j] \in Letters
    /\ Len(f) >= 2 * st.gs
    /\ HasKey(st.keys, SubSeq(f, 1, st.gs))
TrafficKey(st, text) == SubSeq(Filtered(text), 1, st.gs)
TrafficText(st, text) == LET f == Filtered(text) IN SubSeq(f, st.gs + 1, Len(f))
\* "yes": must be deciphered, "no": must not, "any": unspecified (binary mode,
\* or traffic that ends inside a key change).
Verdict(d) == IF d.stat = "bin" \/ (d.stat = "ok" /\ d.pending) THEN "any"
              ELSE IF d.stat = "ok" THEN "yes" ELSE "no"
TryVerdict(st, text) ==
    IF ~LooksEnciphered(st, text) THEN [v |-> "no", d |-> [out |-> <<>>, chain |-> <<>>, stat |-> "none", pending |-> FALSE]]
    ELSE LET d == Decipher(st.keys, st.gs, TrafficKey(st, text), TrafficText(st, text))
         IN  [v |-> Verdict(d), d |-> d]

MarksRules(pre, post, chain, what) ==
    Rule(SameSettings(pre, post) /\ SameKeysModuloUsed(pre, post), "C13", what \o " changed a key or a setting")
    \cup (IF Len(pre.keys) # Len(post.keys) THEN {}
          ELSE Rule(\A j \in chain : post.keys[j].used, "C05", what \o " did not mark a key of the traffic used")
               \cup Rule(\A j \in 1..Len(pre.keys) : j \in chain \/ (post.keys[j].used => pre.keys[j].used), "C05",
                         what \o " marked a key that the traffic does not use")
               \cup Rule(\A j \in 1..Len(pre.keys) : pre.keys[j].used => post.keys[j].used, "C05", what \o " made a used key usable again"))

\* What a message must look like after deciphering was tried on a text.
\* deciphered: whether it was; before: the message before.
TriedMsgRules(pre, t, deciphered, text, ref, m, ctBefore) ==
    IF deciphered
    THEN Rule(t.v # "no", "C05", "text that is not readable traffic was deciphered")
         \cup (IF t.v # "yes" THEN {} ELSE
               Rule(Str(m.pt) = t.d.out, "C06", "deciphered text is not what the legend says")
               \cup Rule(Str(m.pt) = t.d.out, "C05", "deciphered text is not what was sent")
               \cup Rule(Str(m.kid) = TrafficKey(pre, text), "C05", "wrong key id on a deciphered message")
               \cup Rule(Str(m.ct) = TrafficText(pre, text), "C05", "the cipher text of a deciphered message was not kept"))
    ELSE Rule(t.v # "yes", "C05", "traffic that can be read was not deciphered")
         \cup Rule(m.pt = ref, "C05", "the text of unreadable traffic was not kept verbatim")
         \cup Rule(Str(m.kid) = <<>>, "C05", "undeciphered text has a key id")
         \cup Rule(m.ct = ctBefore, "C05", "undeciphered text has cipher text")

\* Receiving a radiogram.  a: text, rcpt, from; r: err, msg.
RecvRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C05", "receiving crashed">>}
    ELSE IF r.err THEN {<<"C05", "a received message was refused">>, <<"C18", "a received message was refused">>}
         \cup Unchanged(pre, post, "C05", "a failed reception changed the store")
    ELSE
    LET m == r.msg
        text == Str(a.text)
        t == TryVerdict(pre, text)
        deciphered == Str(m.kid) # <<>>
        chain == IF deciphered THEN ChainOf(pre, t.d) ELSE {}
    IN  TriedMsgRules(pre, t, deciphered, text, a.text, m, a.empty)
        \cup MarksRules(pre, post, chain, "receiving")
        \cup Rule(OneMsgAdded(pre, post), "C05", "receiving did not add exactly one message")
        \cup Rule(~OneMsgAdded(pre, post) \/ post.msgs[Len(post.msgs)] = m, "C13", "the stored message differs from the returned one")
        \cup Rule(m.rcpt = (IF a.rcpt = <<>> THEN <<pre.call>> ELSE a.rcpt), "C18", "wrong recipients of a received message")
        \cup Rule(m.from = a.from, "C18", "wrong sender of a received message")
        \cup Rule(Str(m.id) # <<>> /\ \A j \in 1..Len(pre.msgs) : pre.msgs[j].id # m.id, "C13", "message id is not unique")

\* TryDecipherPlainText on stored message a.j; a.dry; r: err.
TryRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C05", "deciphering crashed">>} ELSE
    LET b == pre.msgs[a.j]
        p == post.msgs[a.j]
        text == Str(b.pt)
        has == Str(b.kid) # <<>>
        t == TryVerdict(pre, text)
        deciphered == ~has /\ Str(p.kid) # <<>>
        chain == IF deciphered THEN ChainOf(pre, t.d) ELSE {}
    IN  MarksRules(pre, post, chain, "deciphering")
        \cup Rule(SameMsgsBut(pre, post, {a.j}), "C13", "deciphering changed another message")
        \cup (IF Len(post.msgs) # Len(pre.msgs) THEN {}
              ELSE IF has THEN Rule(p = b, "C05", "trying to decipher changed a message that has a key")
              ELSE IF a.dry THEN Rule(p = b, "C05", "a dry run changed the message")
              ELSE TriedMsgRules(pre, t, deciphered, text, b.pt, p, b.ct)
                   \cup Rule([p EXCEPT !.pt = b.pt, !.kid = b.kid, !.ct = b.ct] = b, "C05", "deciphering changed other parts of the message")
                   \cup Rule(r.err = ~deciphered, "C05", "wrong result of trying to decipher"))

\* Decipher on stored message a.j with key id and cipher text; r: err.
DecipherRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C05", "deciphering crashed">>} ELSE
    LET b == pre.msgs[a.j]
        p == post.msgs[a.j]
        d == Decipher(pre.keys, pre.gs, Str(b.kid), Str(b.ct))
        able == Len(Str(b.kid)) = pre.gs /\ Len(Str(b.ct)) >= pre.gs
        v == IF able THEN Verdict(d) ELSE "no"
        chain == IF ~r.err THEN ChainOf(pre, d) ELSE {}
    IN  MarksRules(pre, post, chain, "deciphering")
        \cup Rule(SameMsgsBut(pre, post, {a.j}), "C13", "deciphering changed another message")
        \cup (IF Len(post.msgs) # Len(pre.msgs) THEN {} ELSE
              Rule(v # "yes" \/ ~r.err, "C05", "traffic that can be read was not deciphered")
              \cup Rule(v # "no" \/ r.err, "C05", "unreadable traffic was deciphered")
              \cup Rule(v # "yes" \/ r.err \/ Str(p.pt) = d.out, "C06", "deciphered text is not what the legend says")
              \cup Rule(v # "yes" \/ r.err \/ Str(p.pt) = d.out, "C01", "deciphered text is not what was sent")
              \cup Rule(~r.err \/ p.pt = b.pt, "C05", "a failed deciphering lost the text")
              \cup Rule([p EXCEPT !.pt = b.pt] = b, "C05", "deciphering changed other parts of the message"))

\* Listing messages tries to decipher those that have no key id.
ListedRules(pre, post, j) ==
    LET b == pre.msgs[j]
        p == post.msgs[j]
        t == TryVerdict(pre, Str(b.pt))
    IN  IF Str(b.kid) # <<>> THEN Rule(p = b, "C13", "listing changed a message")
        ELSE TriedMsgRules(pre, t, Str(p.kid) # <<>>, Str(b.pt), b.pt, p, b.ct)
             \cup Rule([p EXCEPT !.pt = b.pt, !.kid = b.kid, !.ct = b.ct] = b, "C13", "listing changed other parts of a message")
ListRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C05", "listing crashed">>}
    ELSE IF Len(post.msgs) # Len(pre.msgs) THEN {<<"C13", "listing added or removed messages">>}
    ELSE LET deciphered == {j \in 1..Len(pre.msgs) : Str(pre.msgs[j].kid) = <<>> /\ Str(post.msgs[j].kid) # <<>>}
             chain == UNION {ChainOf(pre, TryVerdict(pre, Str(pre.msgs[j].pt)).d) : j \in deciphered}
         IN  UNION {ListedRules(pre, post, j) : j \in 1..Len(pre.msgs)} \cup MarksRules(pre, post, chain, "listing")

---------------------------------------------------------------------------
(* Deleting (C14).  a.ids: references to the ids as given, r: n, err.      *)
DeleteKeyRules(pre, a, r, post) ==
    LET named == {UpperSeq(Str(a.ids[j])) : j \in 1..Len(a.ids)}
        gone  == {j \in 1..Len(pre.keys) : UpperSeq(Str(pre.keys[j].id)) \in named}
        left  == {pre.keys[j] : j \in (1..Len(pre.keys)) \ gone}
    IN  IF r.panic THEN {<<"C14", "deleting keys crashed">>} ELSE
        Rule(SetOf(post.keys) = left /\ Len(post.keys) = Len(pre.keys) - Cardinality(gone), "C14",
             "not exactly the named keys were deleted")
        \cup Rule(\A j \in 1..Len(post.keys) : post.keys[j] \in SetOf(pre.keys), "C13", "deleting a key changed another key")
        \cup Rule(~r.err /\ r.n = Cardinality(gone), "C14", "wrong number of deleted keys")
        \cup Rule(post.msgs = pre.msgs /\ SameSettings(pre, post), "C13", "deleting a key changed a message or setting")
DeleteMsgRules(pre, a, r, post) ==
    LET named == {a.ids[j] : j \in 1..Len(a.ids)}
        gone  == {j \in 1..Len(pre.msgs) : pre.msgs[j].id \in named}
        left  == {pre.msgs[j] : j \in (1..Len(pre.msgs)) \ gone}
    IN  IF r.panic THEN {<<"C14", "deleting messages crashed">>} ELSE
        Rule(SetOf(post.msgs) = left /\ Len(post.msgs) = Len(pre.msgs) - Cardinality(gone), "C14",
             "not exactly the named messages were deleted")
        \cup Rule(\A j \in 1..Len(post.msgs) : post.msgs[j] \in SetOf(pre.msgs), "C13", "deleting a message changed another message")
        \cup Rule(~r.err /\ r.n = Cardinality(gone), "C14", "wrong number of deleted messages")
        \cup Rule(post.keys = pre.keys /\ SameSettings(pre, post), "C13", "deleting a message changed a key or setting")

---------------------------------------------------------------------------
(* Generating keys (C15).  a: n, keepers (the expected set, references),   *)
(* now and expm (minutes; expm = 0 means default), bad (invalid expiry).   *)
Minutes365 == 365 * 24 * 60
NewKeyRules(pre, a, post, j) ==
    LET k == post.keys[j]
        id == Str(k.id)
        runes == Str(k.runes)
        want == ((pre.kl + pre.gs - 1) \div pre.gs) * pre.gs
    IN  Rule(Len(id) = pre.gs /\ \A x \in 1..Len(id) : id[x] \in Letters, "C15", "a new key has a malformed id")
        \cup Rule(\A x \in 1..(j - 1) : post.keys[x].id # k.id, "C15", "a new key has the id of another key")
        \cup Rule(Len(runes) = want, "C15", "a new key has the wrong length")
        \cup Rule(\A x \in 1..Len(runes) : runes[x] \in Letters, "C15", "key material is not letters A-Z")
        \cup Rule(\A x \in 1..(j - 1) : post.keys[x].runes # k.runes, "C15", "two keys have the same key material")
        \cup Rule(~k.used /\ ~k.comp, "C15", "a new key is used or compromised")
        \cup Rule(SetOf(k.keepers) = SetOf(a.keepers), "C15", "a new key has the wrong keepers")
        \cup Rule(IF a.expm = 0 THEN k.expm \in (a.now + Minutes365 - 3) .. (a.now + Minutes365 + 3) ELSE k.expm = a.expm,
                  "C15", "a new key expires at the wrong time")
        \cup Rule(Str(k.cmt) = <<>>, "C15", "a new key has a comment")
GenerateRules(pre, a, r, post) ==
    IF r.panic THEN {<<"C15", "generating keys crashed">>}
    ELSE IF a.bad THEN Rule(r.err, "C15", "an invalid expiry was accepted")
                       \cup Unchanged(pre, post, "C15", "refused key generation changed the store")
    ELSE Rule(~r.err, "C15", "generating keys failed")
         \cup Rule(Len(post.keys) = Len(pre.keys) + a.n, "C15", "wrong number of new keys")
         \cup (IF Len(post.keys) < Len(pre.keys) THEN {}
               ELSE Rule(SubSeq(post.keys, 1, Len(pre.keys)) = pre.keys /\ post.msgs = pre.msgs /\ SameSettings(pre, post),
                         "C13", "generating keys changed something else")
                    \cup UNION {NewKeyRules(pre, a, post, j) : j \in (Len(pre.keys) + 1) .. Len(post.keys)})

---------------------------------------------------------------------------
(* Edits by the user: mark compromised, add and remove keepers, wipe.      *)
CompromiseRules(pre, a, r, post) ==
    Rule(post = [pre EXCEPT !.keys[a.j].comp = TRUE], "C13", "marking a key compromised changed something else")
KeeperRules(pre, a, r, post) ==
    LET want == (SetOf(pre.keys[a.j].keepers) \cup SetOf(a.add)) \ SetOf(a.del) IN
    IF Len(post.keys) # Len(pre.keys) THEN {<<"C13", "editing keepers changed the keys">>} ELSE
    Rule(SetOf(post.keys[a.j].keepers) = want, "C15", "adding or removing keepers went wrong")
    \cup Rule([post EXCEPT !.keys[a.j].keepers = <<>>] = [pre EXCEPT !.keys[a.j].keepers = <<>>], "C13",
              "editing the keepers of a key changed something else")
WipeKeyRules(pre, a, r, post) ==
    IF r.panic \/ Len(post.keys) # Len(pre.keys) THEN {<<"C16", "wiping a key failed">>} ELSE
    Rule([post EXCEPT !.keys[a.j] = <<>>] = [pre EXCEPT !.keys[a.j] = <<>>], "C13", "wiping a key changed something else")
    \cup Rule(LET k == post.keys[a.j] IN Str(k.runes) = <<>> /\ Str(k.id) = <<>> /\ Str(k.cmt) = <<>>, "C16", "a wiped key still has content")
WipeMsgRules(pre, a, r, post) ==
    IF r.panic \/ Len(post.msgs) # Len(pre.msgs) THEN {<<"C16", "wiping a message failed">>} ELSE
    Rule([post EXCEPT !.msgs[a.j] = <<>>] = [pre EXCEPT !.msgs[a.j] = <<>>], "C13", "wiping a message changed something else")
    \cup Rule(LET m == post.msgs[a.j] IN \A x \in {m.pt, m.ct, m.kid, m.rg, m.bin} : Str(x) = <<>>, "C16", "a wiped message still has content")
LookRules(pre, a, r, post) ==   \* reading operations: print, list keys, queries
    IF r.panic THEN {<<"C13", "a reading operation crashed">>}
    ELSE Unchanged(pre, post, "C13", "a reading operation changed the store")

---------------------------------------------------------------------------
(* Saving and loading (C08); file: the state that was saved.               *)
SaveRules(pre, a, r, post) ==
    Rule(~r.panic /\ ~r.err, "C08", "saving failed")
    \cup Unchanged(pre, post, "C08", "saving changed the store")
LoadRules(file, a, r, post) ==
    IF r.panic \/ r.err THEN {<<"C08", "a saved store does not load">>} ELSE
    Rule(post.keys = file.keys, "C08", "loaded keys differ from the saved ones")
    \cup Rule(post.msgs = file.msgs, "C08", "loaded messages differ from the saved ones")
    \cup Rule(SameSettings(file, post), "C08", "loaded settings differ from the saved ones")
    \cup Rule(\A i \in 1..Len(file.keys) : file.keys[i].used =>
              \A j \in 1..Len(post.keys) : post.keys[j].id = file.keys[i].id => post.keys[j].used, "C02",
              "a used key is unused after save and load")

---------------------------------------------------------------------------
(* Export and import (C12).  a.ids: the selected key ids.  r.file: what    *)
(* the export file holds.                                                  *)
Chosen(keys, ids) == {j \in 1..Len(keys) : keys[j].id \in SetOf(ids)}
ExportRules(pre, a, r, post) ==
    IF r.panic \/ r.err THEN {<<"C12", "exporting failed">>} ELSE
    LET want == {pre.keys[j] : j \in Chosen(pre.keys, a.ids)} IN
    Rule(SetOf(r.file.keys) = want /\ Len(r.file.keys) = Cardinality(want), "C12", "an export does not hold exactly the selected keys")
    \cup Rule(r.file.msgs = <<>>, "C12", "an export holds messages")
    \cup Rule(r.file.call = pre.call /\ r.file.gs = pre.gs, "C12", "an export has the wrong call-sign or group size")
    \cup Unchanged(pre, post, "C13", "exporting changed the store")

\* Keys of the file that are to be imported.
ToImport(pre, file, a) ==
    {j \in Chosen(file.keys, a.ids) :
        /\ Len(Str(file.keys[j].id)) = pre.gs
        /\ (a.over \/ \A k \in 1..Len(pre.keys) : pre.keys[k].id # file.keys[j].id)}
ImportedFrom(pre, file, j, k) ==     \* k is key j of the file as imported
    /\ SetOf(k.keepers) = (SetOf(file.keys[j].keepers) \ {pre.call}) \cup {file.call}
    /\ [k EXCEPT !.keepers = <<>>] = [file.keys[j] EXCEPT !.keepers = <<>>]
ImportRules(pre, file, a, r, post) ==
    IF r.panic \/ r.err THEN {<<"C12", "importing failed">>}
         \cup Unchanged(pre, post, "C12", "a failed import changed the store") ELSE
    LET imp  == ToImport(pre, file, a)
        ids  == {file.keys[j].id : j \in imp}
        kept == {j \in 1..Len(pre.keys) : pre.keys[j].id \notin ids}
    IN  Rule(Len(post.keys) = Cardinality(kept) + Cardinality(imp), "C12", "wrong number of keys after an import")
        \cup Rule(\A j \in kept : \E k \in 1..Len(post.keys) : post.keys[k] = pre.keys[j], "C12",
                  "an import replaced or changed a key it was not to replace")
        \cup Rule(\A j \in kept : pre.keys[j].used =>
                  \A k \in 1..Len(post.keys) : post.keys[k].id = pre.keys[j].id => post.keys[k].used, "C24",
                  "an import made a used key usable again")
        \cup Rule(\A j \in kept : pre.keys[j].used =>
                  \A k \in 1..Len(post.keys) : post.keys[k].id = pre.keys[j].id => post.keys[k].used, "C02",
                  "an import made a used key usable again")
        \cup Rule(\A j \in imp : \E k \in 1..Len(post.keys) :
                  IF file.call = pre.call THEN post.keys[k].id = file.keys[j].id
                  ELSE ImportedFrom(pre, file, j, post.keys[k]), "C12", "a key was not imported as exported")
        \cup Rule(\A j \in imp : file.keys[j].used =>
                  \A k \in 1..Len(post.keys) : post.keys[k].id = file.keys[j].id => post.keys[k].used, "C24",
                  "a used key is unused after an import")
        \cup Rule(r.n = Cardinality(imp), "C12", "wrong number of imported keys")
        \cup Rule(post.msgs = pre.msgs /\ SameSettings(pre, post), "C13", "importing changed a message or setting")
=============================================================================
