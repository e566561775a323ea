------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation - a network of         *)
(* stations that generate, exchange, use and delete keys and messages -    *)
(* against the rules of Net and StationRules.                              *)
(***************************************************************************)
EXTENDS Net, RealTables, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)
Traces == D.traces
TraceStr(r) == D.strs[r]
KeyAt(r) == D.keys[r]
MsgAt(r) == D.msgs[r]
State(r) == LET s == D.states[r] IN
    [call |-> s.call, gs |-> s.gs, kl |-> s.kl, cols |-> s.cols, kcols |-> s.kcols,
     keys |-> [j \in 1..Len(s.keys) |-> KeyAt(s.keys[j])],
     msgs |-> [j \in 1..Len(s.msgs) |-> MsgAt(s.msgs[j])]]

VARIABLES t,      \* the trace
          i,      \* events consumed
          post,   \* the state (reference) of each station after event i
          h,      \* history
          bad     \* rules broken by event i
vars == <<t, i, post, h, bad>>

Init ==
    /\ t \in 1..Len(Traces)
    /\ i = 0
    /\ post = Traces[t].init
    /\ h = NoHistory(Len(Traces[t].init))
    /\ bad = {}

FrameRules(e) ==
    Rule(\A s \in 1..Len(post) : s = e.s \/ e.post[s] = post[s], "C13", "an operation at one station changed another")

Next ==
    /\ i < Len(Traces[t].events)
    /\ LET e   == Traces[t].events[i + 1]
           pre == State(post[e.s])
           pst == State(e.post[e.s])
       IN  /\ i' = i + 1
           /\ post' = e.post
           /\ h' = Hist(h, e, pre, pst)
           /\ bad' = OpRules(h, e, pre, pst) \cup HistRules(h, e, pre) \cup FrameRules(e)
           /\ \A b \in bad' : PrintT(<<"BAD", t, i + 1, b[1], b[2]>>)
    /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

View == <<t, i>>
=============================================================================
