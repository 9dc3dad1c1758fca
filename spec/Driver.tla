-------------------------------- MODULE Driver --------------------------------
(***************************************************************************)
(* The asynchronous runners: `run_session` ("seq") and `par_run_session`   *)
(* ("par"), each a process with internal steps on top of the session       *)
(* semantics (Session.tla), in an environment that                         *)
(*   P  pushes messages into the incoming channel (one or several at once),*)
(*   C  cancels,                                                           *)
(*   R  lets a call into protocol code return that was held up             *)
(*      (processing of a sender's messages, or creation of messages),      *)
(*   S  takes a message out of a full outgoing channel.                    *)
(*                                                                         *)
(* The environment sees only what is observable: messages sent, protocol   *)
(* calls, how much of the incoming channel is unread, and the report.  So  *)
(* the state explored is the set of all runner states that agree with what *)
(* was seen (a subset construction: B is such a set), and for each thing   *)
(* the environment does there is the set of observations that may be made  *)
(* once the runner has nothing left to do.  It must arrive at one of them: *)
(* a runner that does not, or goes beyond, is wrong.                       *)
(***************************************************************************)
EXTENDS Graphs, Json, FiniteSetsExt
CONSTANTS Slice, K

VARIABLES g, run, B, Q, env, cnt, dev, hist, fin
vars == <<g, run, B, Q, env, cnt, dev, hist, fin>>

(* Configurations: me, shape, stages, menu: as in Slices.
   k: deviating messages; burst: how many messages may be pushed at once; ops: which of "C", "S" the environment has;
   cap: capacity of the outgoing channel, 0: it is drained all the time;
   hold: what is held up until released: senders, or "make" for the creation of messages;
   canon: internal steps in one fixed order only (for configurations with many parties) *)
Cf(me, shape, stages, menu, k, burst, ops, cap, hold, canon) ==
    [me |-> me, shape |-> shape, stages |-> stages, g |-> Compose(stages), menu |-> menu, k |-> k,
     burst |-> burst, ops |-> ops, cap |-> cap, hold |-> hold, canon |-> canon]

BC == {"b", "c"}
\* two rounds without echoes
GL5 == << Stage(Nodes3, "A1", ("A1" :> Rd(Nodes3, {}, {}, {"A2"}, {"nb"}, "A2")) @@ ("A2" :> Rd(Nodes3, {"A1"}, {}, {}, {"dm"}, "RESULT")),
            ("mpn" :> Err({"nb"}, E0, {}))) >>
gL5 == Compose(GL5)
hL5 == HonAll(gL5, BC, {"A1", "A2"}, {})
gL1 == Compose(GL1)  gL3 == Compose(GL3)  gP1 == Compose(GP1)  gP2 == Compose(GP2)
gB1 == Compose(GB1)  gC1 == Compose(GC1)  gC2 == Compose(GC2)  gC3 == Compose(GC3)
hL1 == HonAll(gL1, BC, {"A1", "A2"}, {"A1"})
hL3 == HonAll(gL3, BC, {"A1"}, {"A1"})
hP1a == HonAll(gP1, {"b"}, {"A1", "A2"}, {"A1"}) \cup {HonE(gP1, "c", "A1"), Hon(gP1, "c", "A2")}
hP1c == HonAll(gP1, {"a", "b"}, {"A1", "A2"}, {"A1"})
hP2a == HonAll(gP2, BC, {"A2", "A3"}, {})
hP2b == {Hon(gP2, "a", "A1"), HonE(gP2, "c", "A1")} \cup HonAll(gP2, {"a", "c"}, {"A2", "A3"}, {})
hB1a == {Hon(gB1, "b", "A1"), Hon(gB1, "c", "A1"), Hon(gB1, "b", "A2"), HonE(gB1, "b", "A2"), Hon(gB1, "b", "A3"), Hon(gB1, "c", "A3")}
hB1c == {Hon(gB1, "a", "A1"), Hon(gB1, "b", "A1"), Hon(gB1, "a", "A3"), Hon(gB1, "b", "A3")}
hC1 == HonAll(gC1, BC, {"A1", "A2", "B1"}, {"A1", "B1"})
hC2b == HonAll(gC2, {"a", "c"}, {"A1", "B1", "B2"}, {"A1", "B1"}) \cup {Hon(gC2, "c", "A2")}

\* one of each class of deviations
DevL1(f) == {SetK(Hon(gL1, f, "A1"), "eb", "p", "garb"), SetK(Hon(gL1, f, "A1"), "nb", "p", "up0"), SetAll(Hon(gL1, f, "A1"), "s", "X"),
             SetK(Hon(gL1, f, "A1"), "nb", "p", "ok1"), SetK(Hon(gL1, f, "A2"), "dm", "p", "mpg"), SetK(Hon(gL1, f, "A2"), "nb", "p", "ok1"),
             EchoMsg(gL1, f, "A1", E0), EchoMsg(gL1, f, "A1", [Pack(gL1, f, "A1") EXCEPT !["a"].g = "bad"])}
DevS1(f) == {SetK(Hon(gL1, f, "A1"), "nb", "p", "up0"), SetK(Hon(gL1, f, "A1"), "nb", "p", "ok1"), EchoMsg(gL1, f, "A1", E0),
             SetK(Hon(gL1, f, "A2"), "nb", "p", "mpn")}
DevH5(f) == {SetK(Hon(gL5, f, "A1"), "nb", "p", "mpn"), SetK(Hon(gL5, f, "A2"), "dm", "p", "up0"), SetK(Hon(gL5, f, "A1"), "nb", "p", "ok1")}
DevL3(f) == {SetK(Hon(gL3, f, "A1"), "dm", "p", "up0"), SetK(Hon(gL3, f, "A1"), "dm", "p", "mpd"), EchoMsg(gL3, f, "A1", E0),
             SetK(Hon(gL3, f, "A1"), "dm", "g", "bad"), SetK(Hon(gL3, f, "A1"), "dm", "p", "ok1")}

\* many parties: n001, ...
Name(i) == "n" \o (IF i < 10 THEN "00" ELSE IF i < 100 THEN "0" ELSE "") \o ToString(i)
Many(n) == {Name(i) : i \in 1..n}
GBig(n) == << Stage(Many(n), "A1",
            ("A1" :> Rd(Many(n), {}, {}, {"A2"}, {"nb", "dm"}, "A2")) @@
            ("A2" :> Rd(Many(n), {"A1"}, {}, {}, {"nb"}, "RESULT")), E0) >>
GBigE(n) == << Stage(Many(n), "A1", "A1" :> Rd(Many(n), {}, {}, {}, {"eb"}, "RESULT"), E0) >>
BigMenu(gr, n, rs, ers) == LET c == Compose(gr) IN
    FlattenSeq([x \in 1..Cardinality(rs) |-> [i \in 1..(n-1) |-> [m |-> Hon(c, Name(i+1), SetToSeq(rs)[x]), h |-> TRUE]]])
    \o FlattenSeq([x \in 1..Cardinality(ers) |-> [i \in 1..(n-1) |-> [m |-> HonE(c, Name(i+1), SetToSeq(ers)[x]), h |-> TRUE]]])
Big(gr, n, rs, ers, ops, cap, hold) ==
    << Cf(Name(1), "single", gr, BigMenu(gr, n, rs, ers), 0, 1000, ops, cap, hold, TRUE) >>

D(me, st, h, d, burst, ops) == << Cf(me, "single", st, Menu(h, d), K, burst, ops, 0, {}, FALSE) >>
H(me, st, h, d, burst, ops, hold) == << Cf(me, "single", st, Menu(h, d), K, burst, ops, 0, hold, FALSE) >>
L(me, st, h, d, burst, ops, cap) == << Cf(me, "single", st, Menu(h, d), K, burst, ops, cap, {}, FALSE) >>
Ch(sh, me, st, h) == << Cf(me, sh, st, Menu(h, {}), 0, 1, {"C"}, 0, {}, FALSE) >>
OnlyR(h, rs) == {m \in h : m.dm.r \in rs}

Cfgs ==
  CASE Slice = "flow" -> D("a", GL1, hL1, DevL1("b"), 1, {"C"}) \o D("a", GL3, hL3, DevL3("b"), 1, {"C"})
    [] Slice = "burst" -> D("a", GL1, hL1, {}, 2, {"C"}) \o D("a", GL3, hL3, DevL3("b"), 2, {"C"})
    [] Slice = "burst3" -> D("a", GL3, hL3, {}, 3, {"C"}) \o D("c", GP1, hP1c, {}, 3, {})
    [] Slice = "topo" -> D("a", GP1, hP1a, {}, 2, {"C"}) \o D("c", GP1, hP1c, {}, 1, {"C"}) \o D("a", GP2, hP2a, {}, 1, {"C"})
                         \o D("b", GP2, hP2b, {}, 2, {"C"}) \o D("a", GB1, hB1a, {}, 1, {"C"}) \o D("c", GB1, hB1c, {}, 2, {"C"})
    [] Slice = "chain" -> Ch("chain2", "a", GC1, hC1) \o Ch("chain2", "b", GC2, hC2b)
    [] Slice = "hold" -> H("a", GL3, OnlyR(hL3, {"A1"}), DevL3("b"), 1, {"C"}, {"b"}) \o H("a", GL5, hL5, DevH5("b"), 1, {"C"}, {"b"})
                         \o H("a", GL3, hL3, {}, 1, {"C"}, BC) \o H("b", GP2, OnlyR(hP2b, {"A1", "A1e", "A2"}), {}, 1, {"C"}, {"a"})
    [] Slice = "holdb" -> H("a", GL3, {m \in hL3 : m.from = "b" \/ m.dm.r = "A1"}, DevL3("b"), 2, {"C"}, {"b"})
    [] Slice = "make" -> H("a", GL3, OnlyR(hL3, {"A1"}), {SetK(Hon(gL3, "b", "A1"), "dm", "p", "up0")}, 1, {"C"}, {"make"})
                         \o H("b", GP2, OnlyR(hP2b, {"A1", "A1e", "A2"}), {}, 1, {"C"}, {"make"})
    [] Slice = "full" -> L("a", GL5, hL5, {}, 1, {"S"}, 1) \o L("a", GL3, OnlyR(hL3, {"A1"}), {SetK(Hon(gL3, "b", "A1"), "dm", "p", "up0")}, 1, {"C", "S"}, 1)
    [] Slice = "fullX" -> L("a", GL5, hL5, {}, 1, {"C", "S"}, 1) \o  L("a", GL3, hL3, {SetK(Hon(gL3, "b", "A1"), "dm", "p", "up0")}, 1, {"C", "S"}, 1) \o L("a", GP1, hP1a, {}, 1, {"C", "S"}, 1)
    [] Slice = "holdX" -> H("a", GL3, hL3, DevL3("b"), 1, {"C"}, BC) \o H("a", GL1, hL1, DevS1("b"), 1, {"C"}, {"b"})
    [] Slice = "makeX" -> H("a", GL3, hL3, {SetK(Hon(gL3, "b", "A1"), "dm", "p", "up0")}, 1, {"C"}, {"make"}) \o H("b", GP2, hP2b, {}, 1, {"C"}, {"make"})
    [] Slice = "big" -> Big(GBig(130), 130, {"A1", "A2"}, {}, {}, 0, {}) \o Big(GBigE(130), 130, {"A1"}, {"A1"}, {}, 0, {})
    [] Slice = "bighold" -> Big(GBig(130), 130, {"A1"}, {}, {"C"}, 0, {"others"}) \o Big(GBig(130), 130, {"A1"}, {}, {"C"}, 1, {})
                            \o Big(GBig(130), 130, {"A1"}, {}, {"C"}, 100, {})

C == TLCGet(1)[g]
S == INSTANCE Session WITH G <- TLCGet(1)[g].g
ASSUME TLCSet(1, Cfgs)
Header(i, c) == [cfg |-> i, me |-> c.me, shape |-> c.shape, stages |-> c.stages,
                 menu |-> [j \in 1..Len(c.menu) |-> c.menu[j].m], cap |-> c.cap, hold |-> c.hold]
ASSUME LET cs == TLCGet(1) IN \A i \in 1..Len(cs) : PrintT(ToJson(Header(i, cs[i])))

(***************************** one runner **********************************)
\* What a runner is doing, besides the session state st:
\*   ph     "send", "loop" (seq); "main", "drain" (par); "end"
\*   todo   destinations the message for which is not made;  ready  made, not sent;  blk  the one being sent
\*   chan   in the outgoing channel;  sent  taken out of it
\*   inq    unread incoming messages (menu indices)
\*   work   messages being processed;  procd  processed, not added
\*   log    calls of protocol code;  cf  why the round ends
\* Steps that are independent of all others and can be seen only by their having happened are taken at once: a task
\* starts when it is spawned and ends when nothing holds it up, and with nothing holding it up sending takes no time.
New(rid) == <<"new", rid>>
Pending(r) == (r.st.flight \cup r.st.queue) \ (r.work \cup r.procd)
\* Does the protocol get to see the message?
Seen(r, m) == ~r.st.echo /\ S!StructFaults(r.st, m) = {}
Held(e, r, m) == ({m.from, "others"} \cap C.hold # {}) /\ {m.from, "others"} \cap e.rel = {} /\ Seen(r, m)
MakeHeld(e, r) == "make" \in C.hold /\ "make" \notin e.rel /\ ~r.st.echo /\ S!Has("dm", r.st.main)
Free(e) == C.cap = 0 \/ e.drained
Room(e, r) == Free(e) \/ Cardinality(r.chan) < C.cap
Out(e, r, d) == LET x == <<S!Rid(r.st), d>> IN
    IF Free(e) THEN [r EXCEPT !.sent = @ \cup {x}] ELSE [r EXCEPT !.chan = @ \cup {x}]
End(r, out) == [r EXCEPT !.ph = "end", !.out = out, !.inq = << >>]

SendAll(e, r) == [r EXCEPT !.todo = {}, !.ready = {}, !.sent = @ \cup {<<S!Rid(r.st), d>> : d \in r.todo \cup r.ready}]
Sends(e, r) == IF MakeHeld(e, r) \/ r.todo = {} THEN r
               ELSE IF Free(e) THEN SendAll(e, r)
               ELSE IF run = "par" THEN [r EXCEPT !.ready = r.todo, !.todo = {}] ELSE r

Events(r, ms) == {<<"recv", r.st.main, m.from, m.dm.p, m.eb.p, m.nb.p>> : m \in {x \in ms : Seen(r, x)}}
Spawn(e, r) == LET p == Pending(r) h == {m \in p : Held(e, r, m)} IN
    IF run = "seq" \/ p = {} THEN r
    ELSE [r EXCEPT !.work = @ \cup h, !.procd = @ \cup (p \ h), !.log = @ \cup Events(r, p)]

Enter(e, r, s) == Spawn(e, Sends(e, [r EXCEPT !.st = s, !.todo = S!Destinations(s), !.work = {}, !.procd = {},
                                    !.ph = IF run = "seq" THEN "send" ELSE "main"]))
NodeR(e) ==
    LET s == S!NodeInit(C.me)
    IN Enter(e, [st |-> s, ph |-> "", todo |-> {}, ready |-> {}, blk |-> "", chan |-> {}, sent |-> {}, inq |-> << >>,
              work |-> {}, procd |-> {}, log |-> {New(s.main)}, cf |-> "", out |-> ""], s)

Finish(e, r) ==
    LET n == S!Finalize(r.st)
        over == IF ~r.st.echo /\ S!HasEcho(r.st.me, r.st.main) THEN {} ELSE {<<"fin", r.st.main>>}
        new == IF n.st.status = "run" /\ ~n.st.echo THEN {New(n.next)} ELSE {}
        q == [r EXCEPT !.log = @ \cup over \cup new, !.st = n.st]
    IN IF n.st.status = "run" THEN Enter(e, q, n.st) ELSE End(q, n.st.status)

Added(r, m) == {[r EXCEPT !.st = S!AddProcessed(r.st, m, v), !.work = @ \ {m}, !.procd = @ \ {m}] : v \in S!Verdicts(r.st, m)}
Take(e, r) == LET p == S!Preprocess(r.st, C.menu[Head(r.inq)].m) IN Spawn(e, [r EXCEPT !.st = p.st, !.inq = Tail(@)])

Sequential(e, r) ==
    IF r.ph = "send" THEN
        IF r.todo = {} /\ r.blk = "" THEN {[r EXCEPT !.ph = "loop"]}
        ELSE IF r.blk # "" THEN (IF Room(e, r) THEN {[Out(e, r, r.blk) EXCEPT !.blk = ""]} ELSE {})
        ELSE IF MakeHeld(e, r) THEN {}
        ELSE IF Free(e) THEN {SendAll(e, r)}
        ELSE {[r EXCEPT !.blk = d, !.todo = @ \ {d}] : d \in r.todo}
    ELSE IF r.ph = "loop" THEN
        IF r.work # {} THEN UNION {Added(r, m) : m \in {x \in r.work : ~Held(e, r, x)}}
        ELSE IF Pending(r) # {}
        THEN UNION {LET q == [r EXCEPT !.work = @ \cup {m}, !.log = @ \cup Events(r, {m})]
                    IN IF Held(e, r, m) THEN {q} ELSE Added(q, m) : m \in Pending(r)}
        ELSE LET f == S!CanFinalize(r.st) IN
            IF f = "Y" THEN {Finish(e, r)}
            ELSE IF f = "X" THEN {End(r, "N")}
            ELSE (IF r.inq # << >> THEN {Take(e, r)} ELSE {}) \cup (IF e.cancel THEN {End(r, "T")} ELSE {})
    ELSE {}

Parallel(e, r) ==
    IF r.ph = "end" THEN {}
    ELSE
    LET made == IF r.todo = {} \/ MakeHeld(e, r) THEN {}
                ELSE IF Free(e) THEN {SendAll(e, r)}
                ELSE {[r EXCEPT !.todo = {}, !.ready = @ \cup r.todo]}
        tasks == made \cup {[r EXCEPT !.work = @ \ {m}, !.procd = @ \cup {m}] : m \in {x \in r.work : ~Held(e, r, x)}}
        send == IF r.ready = {} THEN {} ELSE IF Free(e) THEN {[r EXCEPT !.ready = {}, !.sent = @ \cup {<<S!Rid(r.st), d>> : d \in r.ready}]}
                ELSE {[r EXCEPT !.ready = @ \ {d}, !.blk = d] : d \in r.ready}
        add == UNION {Added(r, m) : m \in r.procd}
        f == S!CanFinalize(r.st)
        host ==
          IF r.blk # "" THEN (IF Room(e, r) THEN {[Out(e, r, r.blk) EXCEPT !.blk = ""]} ELSE {})
          ELSE IF r.ph = "main" THEN
            IF f # "N" THEN {[r EXCEPT !.ph = "drain", !.cf = f]}
            ELSE send \cup add
                 \cup (IF r.inq # << >> THEN {Take(e, r)} ELSE {})
                 \cup (IF e.cancel THEN {[r EXCEPT !.ph = "drain", !.cf = "T"]} ELSE {})
          ELSE IF r.todo = {} /\ r.ready = {} /\ r.work = {} /\ r.procd = {}
          THEN (IF r.cf = "Y" THEN {Finish(e, r)} ELSE IF r.cf = "X" THEN {End(r, "N")} ELSE {End(r, "T")})
          ELSE send \cup add
    IN tasks \cup host

\* Many messages in one step (of the configurations with many parties)
AddEach(r, ms) == FoldSet(LAMBDA m, q : CHOOSE x \in Added(q, m) : TRUE, r, ms)
TakeEach(e, r) == FoldLeft(LAMBDA q, j : Take(e, q), r, r.inq)
Canon(e, r) ==
    LET take == r.inq # << >> /\ r.blk = "" /\ S!CanFinalize(r.st) = "N" IN
    \* (the cancellation is noticed at once)
    IF e.cancel /\ run = "par" /\ r.ph = "main" /\ r.blk = "" /\ S!CanFinalize(r.st) = "N" THEN {[r EXCEPT !.ph = "drain", !.cf = "T"]}
    ELSE IF e.cancel /\ run = "seq" /\ r.ph = "loop" /\ r.work = {} /\ Pending(r) = {} /\ S!CanFinalize(r.st) = "N" THEN {End(r, "T")}
    ELSE IF run = "par" /\ r.ph # "end" /\ r.blk = "" /\ r.procd # {} THEN {AddEach(r, r.procd)}
    ELSE IF run = "par" /\ r.ph = "main" /\ take THEN {TakeEach(e, r)}
    ELSE IF run = "seq" /\ r.ph = "loop" /\ C.hold = {} /\ Pending(r) # {}
    THEN {AddEach([r EXCEPT !.log = @ \cup Events(r, Pending(r))], Pending(r))}
    ELSE IF run = "seq" /\ r.ph = "loop" /\ C.hold = {} /\ take THEN {TakeEach(e, r)}
    ELSE IF run = "seq" /\ r.ph = "send" /\ r.todo # {} /\ r.blk = "" /\ ~MakeHeld(e, r) /\ ~Free(e)
    THEN LET d == CHOOSE x \in r.todo : TRUE IN {[r EXCEPT !.blk = d, !.todo = @ \ {d}]}
    ELSE IF run = "par" /\ r.ph \in {"main", "drain"} /\ r.ready # {} /\ r.blk = "" /\ ~Free(e)
    THEN LET d == CHOOSE x \in r.ready : TRUE IN {[r EXCEPT !.blk = d, !.ready = @ \ {d}]}
    ELSE LET s == IF run = "seq" THEN Sequential(e, r) ELSE Parallel(e, r) IN
         IF s = {} THEN {} ELSE {CHOOSE x \in s : TRUE}

Steps(e, r) ==
    IF C.canon THEN Canon(e, r) ELSE IF run = "seq" THEN Sequential(e, r) ELSE Parallel(e, r)

(***************************** what is seen ********************************)
Obs(r) == [s |-> r.sent, l |-> r.log, n |-> Len(r.inq), e |-> r.out]

\* [all: what can be reached, q: where the runner has nothing left to do]
RECURSIVE Close(_, _, _, _)
Close(e, seen, quiet, new) ==
    IF new = {} THEN [all |-> seen, q |-> quiet]
    ELSE LET ns == {[r |-> r, n |-> Steps(e, r)] : r \in new}
             nx == UNION {x.n : x \in ns} \ seen
         IN Close(e, seen \cup nx, quiet \cup {x.r : x \in {y \in ns : y.n = {}}}, nx)
Reach(e, rs) == Close(e, rs, {}, rs)
\* (a cancellation may be noticed in any round: in the given one and later)
RECURSIVE Run(_, _, _)
Run(e, r, rid) ==
    LET s == Steps([e EXCEPT !.cancel = @ /\ (rid = S!Rid(r.st) \/ r.ph = "drain")], r)
    IN IF s = {} THEN r ELSE Run(e, CHOOSE x \in s : TRUE, rid)
AllRids == DOMAIN C.g.rounds \cup {S!Echo(r) : r \in DOMAIN C.g.rounds}
\* [b: states in which the environment may find the runner after it has seen what it waits for, q: those with nothing to do]
Settle(e, rs) ==
    IF C.canon THEN LET q == {x \in {Run(e, r, rid) : r \in rs, rid \in AllRids} : Steps(e, x) = {}} IN [b |-> q, q |-> q]
    ELSE LET c == Reach(e, rs)
             os == {Obs(r) : r \in c.q}
             base == {r \in c.all : Obs(r) \in os}
             \* (observations only grow, so if there is one only, it stays)
         IN [b |-> IF Cardinality(os) = 1 THEN base ELSE Reach(e, base).all, q |-> c.q]

Env0 == [cancel |-> FALSE, drained |-> FALSE, rel |-> {}]
EnvEnd == [cancel |-> TRUE, drained |-> TRUE, rel |-> C.hold]
Flush(r) == [r EXCEPT !.sent = @ \cup r.chan, !.chan = {}]

(* At the end the environment cancels, drains the channel and holds nothing up any more: the runner must return
   (with many parties it first waits for what happens without the cancellation: too many things could happen before
   the runner notices that it is cancelled) *)
FinalOf(e, b) ==
    LET m == IF C.canon THEN Settle([EnvEnd EXCEPT !.cancel = e.cancel], {Flush(r) : r \in b}).q ELSE {Flush(r) : r \in b}
    IN <<m, Settle(EnvEnd, m).q>>

(******************************* behaviour *********************************)
Init ==
    /\ g \in 1..Len(TLCGet(1)) /\ run \in {"seq", "par"}
    /\ env = Env0 /\ cnt = [j \in 1..Len(C.menu) |-> 0] /\ dev = 0
    /\ LET t == Settle(Env0, {NodeR(Env0)}) IN B = t.b /\ Q = t.q /\ hist = << <<"B", {Obs(r) : r \in t.q}>> >>
    /\ fin = FinalOf(Env0, B)

Go(e, rs, op) ==
    LET t == Settle(e, rs) IN
    /\ B' = t.b /\ Q' = t.q /\ env' = e /\ fin' = FinalOf(e, t.b)
    /\ hist' = Append(hist, Append(op, {Obs(r) : r \in t.q}))

Running == TRUE = (\E r \in B : r.ph # "end")
Known(m, r) == r.ph = "end" \/ m.dm.r \in {S!Rid(r.st)} \cup S!Simultaneous(r.st)
Pushable(j) == cnt[j] = 0 /\ (C.menu[j].h => \A r \in B : Known(C.menu[j].m, r))
PushAll(rs, js) == {IF r.ph = "end" THEN r ELSE [r EXCEPT !.inq = @ \o js] : r \in rs}

RECURSIVE Bursts(_, _)
Bursts(n, js) == IF n = 0 THEN {<< >>} ELSE {<< >>} \cup UNION {{<<j>> \o s : s \in Bursts(n - 1, js \ {j})} : j \in js}
Devs(js) == Cardinality({i \in 1..Len(js) : ~C.menu[js[i]].h})

Push ==
    LET ok == {j \in 1..Len(C.menu) : Pushable(j)} IN
    \E js \in (IF C.burst >= 1000
               THEN {SetToSeq({j \in ok : C.menu[j].m.dm.r = r}) : r \in {C.menu[j].m.dm.r : j \in ok}}
               ELSE Bursts(C.burst, ok) \ {<< >>}) :
       /\ dev + Devs(js) <= C.k
       /\ cnt' = [j \in 1..Len(C.menu) |-> cnt[j] + (IF \E i \in 1..Len(js) : js[i] = j THEN 1 ELSE 0)]
       /\ dev' = dev + Devs(js)
       /\ Go(env, PushAll(B, js), <<"P", js>>)

\* (with many parties only where the runner notices it at once)
Cancel == /\ "C" \in C.ops /\ ~env.cancel /\ (C.canon => run = "par" /\ \A r \in B : r.blk = "") /\ Go([env EXCEPT !.cancel = TRUE], B, <<"C", << >> >>) /\ UNCHANGED <<cnt, dev>>
Release == \E x \in C.hold \ env.rel :
    /\ Go([env EXCEPT !.rel = @ \cup {x}], B, <<"R", x>>) /\ UNCHANGED <<cnt, dev>>
Drain ==
    /\ "S" \in C.ops
    /\ \A r \in Q : r.chan # {}
    /\ Go(env, UNION {{[r EXCEPT !.chan = @ \ {x}, !.sent = @ \cup {x}] : x \in r.chan} : r \in B}, <<"S", << >> >>)
    /\ UNCHANGED <<cnt, dev>>

Next == Running /\ (Push \/ Cancel \/ Release \/ Drain) /\ UNCHANGED <<g, run>>
Spec == Init /\ [][Next]_vars
View == <<g, run, B, env, cnt, dev>>

Ends(f) == {[o |-> Obs(r), r |-> IF r.out = "L" THEN [out |-> "L", prov |-> << >>, unprov |-> {}, missing |-> << >>]
                              ELSE S!Report(r.st, r.out)] : r \in f}
Emit == PrintT(ToJson([g |-> g, run |-> run, h |-> hist', f |-> Ends(fin[2]'),
                       m |-> IF C.canon THEN {Obs(r) : r \in fin[1]'} ELSE {}]))

(***************************** on the specification ************************)
\* C18: the runner returns once it is cancelled (or the protocol has finished), provided that it is drained
Returns == \A r \in fin[2] : r.ph = "end"
\* C17: to whom messages were sent: exactly the destinations of each round that was entered
Rounds(r) == {x[2] : x \in {y \in r.log : y[1] = "new"}}
SentRight == \A r \in fin[2] :
    \A x \in r.sent : LET m == x[1] IN
        \/ m \in Rounds(r) /\ x[2] \in C.g.rounds[m].dst[C.me]
        \/ \E q \in Rounds(r) : m = S!Echo(q) /\ S!HasEcho(C.me, q) /\ x[2] \in S!EchoTargets(C.me, q)
SentAll == \A r \in fin[2] : \A m \in Rounds(r) : \A d \in C.g.rounds[m].dst[C.me] : <<m, d>> \in r.sent
\* C18: a cancelled runner that is not held up or blocked has returned
CancelSeen == (env.cancel /\ C.hold = env.rel /\ C.cap = 0) => \A r \in Q : r.ph = "end"
=============================================================================
