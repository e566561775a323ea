----------------------------- MODULE RadioTrace -----------------------------
(***************************************************************************)
(* Judges what the code makes of radiograms against Radiogram (C18).       *)
(***************************************************************************)
EXTENDS StationRules, RealTables, Radiogram, Judge

\* The current month as "now"; unknown when the month changed meanwhile.
NowOf(r) == [y |-> r.now0[1], m |-> r.now0[2]]
SameMonth(r) == r.now0[1] = r.now1[1] /\ r.now0[2] = r.now1[2]
TimeRight(r, p) ==
    IF p.dtg = <<>> THEN r.dtgm >= r.now0[3] /\ r.dtgm <= r.now1[3]
    ELSE ~SameMonth(r) \/ r.dtgm = DtgMinutes(p.dtg, NowOf(r))
\* At the turn of a month zones may disagree on which month it is.
MonthDoubtful(r, p) == Len(p.dtg) \in 7..11 /\ (r.now0[4] \in {1, 2} \/ r.now0[4] >= 27)

Same(r, p, raw, prop) ==
    Rule([j \in 1..Len(r.rcpt) |-> Str(r.rcpt[j])] = p.rcpt, prop, "the recipients of a radiogram are not those written")
    \cup Rule(Str(r.from) = p.from, prop, "the sender of a radiogram is not the one written")
    \cup Rule(MonthDoubtful(r, p) \/ TimeRight(r, p), prop, "the time of a radiogram is not its date-time group")
    \cup Rule(Str(r.pt) = p.text, prop, "the text of a radiogram is not the text written")
    \cup Rule(Str(r.rg) = Norm(raw), prop, "the radiogram kept is not the one entered")

Read1(a, r) == Read(Str(a.raw), NowOf(r))
Refused(r) == r.err /\ ~r.got

ParseRules(a, r) ==
    LET p == Read1(a, r) IN
    IF r.panic THEN {<<"C18", "parsing a radiogram crashed">>}
    ELSE IF r.err THEN
        Rule(p.v # "yes" \/ ~SameMonth(r) \/ MonthDoubtful(r, p), "C18", "a documented radiogram is refused")
    ELSE CASE p.v = "yes" -> Same(r, p, Str(a.raw), "C18")
           [] p.v = "no" -> {<<"C18", "text that is no radiogram is accepted">>}
           [] p.v = "baddtg" -> Rule(~SameMonth(r) \/ MonthDoubtful(r, p), "C18", "an impossible date-time group is accepted")
           [] OTHER -> {}

\* Entering a radiogram as a new message. a.pool: call-signs that keep enough
\* keys, which also has keys without keepers.
NewRules(a, r) ==
    LET p == Read1(a, r)
        clear == p.v = "yes"
        mine == p.from = Str(a.call)
        keysFor == \A j \in 1..Len(p.rcpt) : p.rcpt[j] \in {Str(a.pool[x]) : x \in 1..Len(a.pool)}
        tellable == Supported(p.text) /\ keysFor
    IN
    IF r.panic THEN {<<"C18", "entering a radiogram crashed">>, <<"C04", "a send crashed">>}
    ELSE IF r.err THEN
        Rule(~clear \/ ~SameMonth(r) \/ MonthDoubtful(r, p) \/ (mine /\ ~tellable), "C18", "a documented radiogram is refused")
        \cup Rule(r.n1 = r.n0 /\ r.same, "C18", "a refused radiogram left a trace in the store")
    ELSE
        Rule(r.n1 = r.n0 + 1 /\ r.others, "C18", "a new message is not added once, leaving the others")
        \cup Rule(r.unique /\ Len(Str(r.id)) = 4, "C18", "a new message has no unique id")
        \cup Rule(r.stored, "C18", "the message returned is not the one stored")
        \cup Rule(p.v # "no", "C18", "text that is no radiogram is accepted")
        \cup Rule(p.v # "baddtg" \/ ~SameMonth(r) \/ MonthDoubtful(r, p), "C18", "an impossible date-time group is accepted")
        \cup IF ~clear THEN {} ELSE
             LET q == IF mine \/ p.rcpt # <<>> THEN p ELSE [p EXCEPT !.rcpt = <<Str(a.call)>>] IN
             Same(r, q, Str(a.raw), "C18")
             \cup Rule(~mine \/ (Str(r.ct) # <<>> /\ Str(r.kid) # <<>> /\ r.marked >= 1), "C18", "a message from the station itself is not treated as outgoing")
             \cup Rule(mine \/ (Str(r.ct) = <<>> /\ Str(r.kid) = <<>> /\ r.marked = 0), "C18", "a message from another station is not treated as incoming")

\* No argument at all, or a reader that fails.
NoneRules(a, r) == Rule(~r.panic /\ r.err /\ r.n1 = r.n0, "C18", "a message without radiogram is accepted")

RadioRules(e) ==
    CASE e.op = "parse" -> ParseRules(e.a, e.r)
      [] e.op = "new" -> NewRules(e.a, e.r)
      [] e.op = "none" -> NoneRules(e.a, e.r)
=============================================================================
