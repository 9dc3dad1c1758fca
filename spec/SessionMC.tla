------------------------------- MODULE SessionMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of one party's session against everything that   *)
(* the environment can do with the messages of a menu.  Every edge of the  *)
(* state graph is printed as a line (the operations leading to it and what *)
(* can be observed), and replayed against the real code by the harness.    *)
(***************************************************************************)
EXTENDS Slices, Json

VARIABLES g, st, cnt, dev, hist
vars == <<g, st, cnt, dev, hist>>

C == TLCGet(1)[g]
S == INSTANCE Session WITH G <- TLCGet(1)[g].g

\* (the configurations are put into a register because TLC would compute them again and again)
ASSUME TLCSet(1, Cfgs)
Header(i, c) == [cfg |-> i, me |-> c.me, shape |-> c.shape, stages |-> c.stages,
                 menu |-> [j \in 1..Len(c.menu) |-> c.menu[j].m]]
ASSUME LET cs == TLCGet(1) IN \A i \in 1..Len(cs) : PrintT(ToJson(Header(i, cs[i])))

Honest(j) == C.menu[j].h
Init == /\ g \in 1..Len(TLCGet(1))
        /\ st = S!NodeInit(C.me)
        /\ cnt = [j \in 1..Len(C.menu) |-> 0]
        /\ dev = 0 /\ hist = << >>

Idle == st.flight = {} /\ st.queue = {}

Deliver(j) ==
    LET m == C.menu[j].m IN
    /\ C.async \/ Idle
    /\ IF Honest(j) THEN cnt[j] < C.max /\ m.dm.r \in {S!Rid(st)} \cup S!Simultaneous(st)
       ELSE dev < C.k
    /\ LET p == S!Preprocess(st, m) IN
       /\ st' = p.st
       /\ hist' = Append(hist, <<"D", j, p.o, S!CanFinalize(p.st)>>)
    /\ cnt' = IF Honest(j) THEN [cnt EXCEPT ![j] = @ + 1] ELSE cnt
    /\ dev' = IF Honest(j) THEN dev ELSE dev + 1
    /\ UNCHANGED g

Add(m) ==
    \E v \in S!Verdicts(st, m) :
      /\ st' = S!AddProcessed(st, m, v)
      /\ hist' = Append(hist, <<"A", m.from, v.t, S!CanFinalize(st'), Cardinality(S!Verdicts(st, m)) > 1>>)
      /\ UNCHANGED <<g, cnt, dev>>

\* all queued messages one after another; in the order of senders
RECURSIVE AddAll(_, _)
AddAll(s, ms) ==
    IF ms = << >> THEN {s}
    ELSE UNION {AddAll(S!AddProcessed(s, Head(ms), v), Tail(ms)) : v \in S!Verdicts(s, Head(ms))}
Process ==
    /\ st.queue # {}
    /\ LET ms == SetToSeq(st.queue) IN
       \E s \in AddAll(st, ms) :
          /\ st' = s
          /\ hist' = Append(hist, <<"Q", [i \in 1..Len(ms) |-> ms[i].from], S!CanFinalize(s),
                              \E m \in st.queue : Cardinality(S!Verdicts(st, m)) > 1>>)
    /\ UNCHANGED <<g, cnt, dev>>

PayOf(s) == IF ~s.echo /\ S!HasEcho(s.me, s.main) THEN [none |-> TRUE]
            ELSE [none |-> FALSE, rid |-> s.main, pay |-> s.pay, art |-> S!R(s).dst[s.me]]
Finalize ==
    /\ st.queue = {} /\ S!CanFinalize(st) = "Y"
    /\ LET n == S!Finalize(st) IN
       /\ st' = n.st
       /\ hist' = Append(hist, <<"F", n.next, Cardinality(n.st.queue),
                           IF n.st.status = "run" THEN S!Destinations(n.st) ELSE {},
                           PayOf(st), IF n.st.status = "run" THEN S!CanFinalize(n.st) ELSE "">>)
    /\ UNCHANGED <<g, cnt, dev>>

Next == st.status = "run" /\ ((\E j \in 1..Len(C.menu) : Deliver(j)) \/ (\E m \in st.flight : Add(m)) \/ Process \/ Finalize)

Spec == Init /\ [][Next]_vars
\* Deep: states are told apart by how they were entered, so that all pairs of consecutive steps are covered
View == <<g, st, cnt, dev, IF Deep /\ hist # << >> THEN hist[Len(hist)] ELSE << >> >>

Line(h, s) == [g |-> g, h |-> h, r |-> S!Report(s, s.status), cf |-> IF s.status = "run" THEN S!CanFinalize(s) ELSE ""]
Emit == PrintT(ToJson(Line(hist', st')))

(**************** properties checked on the specification itself ****************)
\* C03/C09: at most one message per sender in a round is ever accepted
OnePerSender == \A m1, m2 \in st.flight \cup st.queue : m1.from = m2.from => m1 = m2
\* what is queued or in flight was never processed before in this round
NotTwice == st.status = "run" =>
    /\ \A m \in st.flight \cup st.queue : m.from \in st.still /\ m.from \in st.proc /\ m.from \notin st.acc
\* C10/C12: only parties that are not banned can be waited for
LiveNotBanned == st.status = "run" => S!Live(st) \subseteq (S!InWork(st) \cup (S!Expected(st) \ S!Banned(st)))
\* C12: the three answers are exclusive and finalizable means everything accepted
FinalizableIffAll == st.status = "run" => (S!CanFinalize(st) = "Y" <=> S!Expected(st) \ st.acc = {})
\* C05 (one party's view): nobody is blamed while only honest messages were delivered, once each
HonestNotBlamed == dev = 0 /\ C.max = 1 => S!Banned(st) = {}
\* C04/C13: a message is in one place only
CachedElsewhere == \A m \in st.cached : m.dm.r # S!Rid(st)
ReportSound == LET r == S!Report(st, st.status) IN
    (DOMAIN r.prov \cup r.unprov) = S!Banned(st) /\ st.me \notin DOMAIN r.prov
=============================================================================
