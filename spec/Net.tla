---------------------------------- MODULE Net ----------------------------------
(***************************************************************************)
(* All parties of a protocol and the messages between them.  Every party   *)
(* runs the session of Session.tla and finalizes as soon as it can; the    *)
(* network delivers the messages in any order.  What a party sends is what *)
(* the protocol says, except for what its extensions override (content of  *)
(* a part, where finalize() goes), or what a Byzantine party sends.        *)
(*                                                                         *)
(* Every terminal state is printed: what all the parties' reports may be   *)
(* together.  The harness runs the development runners on each             *)
(* configuration and compares.                                             *)
(*                                                                         *)
(* ext: a set of [n, r, k, d, c]: party n in main round r overrides        *)
(*   k = "eb"|"nb"  that part, with content c                              *)
(*   k = "dm"       the direct message to d ("*": to all), with content c  *)
(*   k = "fin"      finalize(), going to c                                 *)
(*   k = "none"     nothing                                                *)
(***************************************************************************)
EXTENDS Slices, Json

VARIABLES g, ns, net, rep, fins
vars == <<g, ns, net, rep, fins>>

(***************************** configurations ******************************)
Nc(shape, stages, ext, canon) ==
    LET g0 == Compose(stages)
        own(n, r) == LET x == {y \in ext : y.n = n /\ y.r = r /\ y.k = "eb"} IN
                     IF x = {} THEN "ok0" ELSE (CHOOSE y \in x : TRUE).c
        nx(n, r) == LET x == {y \in ext : y.n = n /\ y.r = r /\ y.k = "fin"} IN
                    IF x = {} THEN g0.rounds[r].next[n] ELSE (CHOOSE y \in x : TRUE).c
        rounds == [r \in DOMAIN g0.rounds |->
                     [own |-> [n \in g0.nodes |-> own(n, r)]] @@ [g0.rounds[r] EXCEPT !.next = [n \in g0.nodes |-> nx(n, r)]]]
    IN [shape |-> shape, stages |-> stages, ext |-> ext, canon |-> canon, g |-> [g0 EXCEPT !.rounds = rounds]]
X(n, r, k, d, c) == [n |-> n, r |-> r, k |-> k, d |-> d, c |-> c]
Honest1(stages) == << Nc("single", stages, {}, FALSE) >>
HonestC(shape, stages) == << Nc(shape, stages, {}, FALSE) >>

\* topologies: E a set of directed edges
Edges(N) == {<<x, y>> \in N \X N : x # y}
To(N, E) == [n \in N |-> {m \in N : <<n, m>> \in E}]
From(N, E) == [n \in N |-> {m \in N : <<m, n>> \in E}]
T1(N, E, k) == << Stage(N, "A1", "A1" :> Talk(Rd(N, {}, {}, {}, k, "RESULT"), To(N, E), From(N, E)), E0) >>
T2(N, E, F, k, l) == << Stage(N, "A1",
    ("A1" :> Talk(Rd(N, {}, {}, {"A2"}, k, "A2"), To(N, E), From(N, E))) @@
    ("A2" :> Talk(Rd(N, {"A1"}, {}, {}, l, "RESULT"), To(N, F), From(N, F))), E0) >>
T3(N, E, F, H, k) == << Stage(N, "A1",
    ("A1" :> Talk(Rd(N, {}, {}, {"A2"}, k, "A2"), To(N, E), From(N, E))) @@
    ("A2" :> Talk(Rd(N, {"A1"}, {}, {"A3"}, k, "A3"), To(N, F), From(N, F))) @@
    ("A3" :> Talk(Rd(N, {"A2"}, {}, {}, k, "RESULT"), To(N, H), From(N, H))), E0) >>
\* cliques: everyone in the same block talks to each other
Cliques(N) == {{<<x, y>> \in N \X N : x # y /\ f[x] = f[y]} : f \in [N -> 1..Cardinality(N)]}
Seqd(S) == SetToSeq(S)
MapC(S, F(_)) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Nc("single", F(q[i]), {}, FALSE)]
Canon(cs) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.canon = TRUE]]
\* three parties, and many that talk to them only
Hubs == {"a", "b", "c"}
Leaves(n) == {"p" \o ToString(i) : i \in 1..n}
Spokes(n) == LET e == Hubs \X Leaves(n) IN e \cup {<<x[2], x[1]>> : x \in e}
N1 == {"a"}  N2 == {"a", "b"}
N5 == {"a", "b", "c", "d", "e"}
Ring(N) == LET q == SetToSeq(N) IN {<<q[i], q[(i % Len(q)) + 1]>> : i \in 1..Len(q)}
Star(N, c) == {<<c, x>> : x \in N \ {c}}
Rev(E) == {<<e[2], e[1]>> : e \in E}
Full(N) == Edges(N)

\* all ways to override one thing
OvPart(gr, n, r) ==
    {X(n, r, k, "*", c) : k \in {x \in KS : HasK(gr, r, x)}, c \in {"ok1", "up0"}}
    \cup {X(n, r, "dm", d, c) : d \in IF HasK(gr, r, "dm") THEN gr.rounds[r].dst[n] ELSE {}, c \in {"ok1", "up0"}}
    \cup UNION {{X(n, r, k, d, e) : d \in IF k = "dm" THEN gr.rounds[r].dst[n] ELSE {"*"}} :
                   <<k, e>> \in {<<k2, e2>> \in KS \X DOMAIN gr.errs : \E m \in MpDevs(gr, n, r) : GetK(m, k2).p = e2}}
GM4 == << Stage(N2, "A1",
    ("A1" :> Rd(N2, {}, {}, {"A2"}, {"nb"}, "A2")) @@ ("A2" :> Rd(N2, {"A1"}, {}, {"A3"}, {"dm"}, "A3")) @@
    ("A3" :> Rd(N2, {"A2"}, {}, {"A4"}, {"eb"}, "A4")) @@ ("A4" :> Rd(N2, {"A3"}, {}, {}, {"nb", "dm"}, "RESULT")), E0) >>
Ovs(gr) == UNION {IF gr.rounds[r].dst[n] = {} THEN {} ELSE OvPart(gr, n, r) : n \in gr.nodes, r \in DOMAIN gr.rounds}
Nones(gr) == {X(n, r, "none", "*", "") : n \in gr.nodes, r \in DOMAIN gr.rounds}
OvC(st, S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Nc("single", st, q[i], FALSE)]
Ones(S) == {{x} : x \in S}
\* overriding finalize() along declared transitions (and to a result, where there may be one)
Fins(gr) == {X(n, r, "fin", "*", c) : n \in gr.nodes, r \in DOMAIN gr.rounds, c \in DOMAIN gr.rounds \cup {"RESULT"}}
FinsOk(st) == LET q == st[1].rounds IN
    {x \in Fins(Compose(st)) : IF x.c = "RESULT" THEN q[x.r].res ELSE x.c \in q[x.r].children}

NetCfgs ==
  CASE Slice = "honest" -> Honest1(GL1) \o Honest1(GL2) \o Honest1(GL3) \o Honest1(GP1) \o Honest1(GP2) \o Honest1(GP3)
                           \o Honest1(GB1) \o Honest1(GB3) \o Canon(Honest1(GL4))
    [] Slice = "honestC" -> HonestC("chain2", GC1) \o HonestC("chain2", GC2) \o Canon(HonestC("chainL", GC3) \o HonestC("chainR", GC3))
                           \o HonestC("chain2", GC6) \o Canon(HonestC("chainL", GC4) \o HonestC("chainR", GC4)
                           \o HonestC("chainL", GC5) \o HonestC("chainR", GC5) \o HonestC("chainL", GC7) \o HonestC("chainR", GC7))
    [] Slice = "topo1" -> MapC({N1} \X SUBSET KS, LAMBDA x : T1(x[1], {}, x[2]))
                           \o MapC((SUBSET Edges(N2)) \X {{"nb"}, {"dm"}, {"nb", "dm"}}, LAMBDA x : T1(N2, x[1], x[2]))
                           \o MapC((SUBSET Edges(Nodes3)) \X {{"nb"}, {"dm"}}, LAMBDA x : T1(Nodes3, x[1], x[2]))
                           \o MapC((Cliques(Nodes3) \cup Cliques(N2)) \X {{"eb"}, {"eb", "dm"}},
                                   LAMBDA x : T1(Nodes3, x[1], x[2]))
                           \o MapC(Cliques(N2), LAMBDA x : T1(N2, x, {"eb", "nb"}))
                           \o << Nc("single", T1(Nodes3, {}, {}), {}, FALSE) >>
    [] Slice = "topo2" -> MapC(SUBSET Edges(Nodes3), LAMBDA x : T2(Nodes3, x, Edges(Nodes3) \ x, {"nb"}, {"dm"}))
                           \o MapC(SUBSET Edges(N2), LAMBDA x : T2(N2, x, Edges(N2) \ x, {"dm"}, {"nb"}))
                           \o MapC(SUBSET Edges(Nodes3), LAMBDA x : T3(Nodes3, x, Edges(Nodes3) \ x, Rev(Edges(Nodes3) \ x), {"nb", "dm"}))
                           \o MapC({N1} \X {{}, {"eb"}}, LAMBDA x : T3(N1, {}, {}, {}, x[2]))
                           \o MapC(Cliques(Nodes3), LAMBDA x : T2(Nodes3, x, Edges(Nodes3) \ x, {"eb", "dm"}, {"nb"}))
    [] Slice = "topo5" -> Canon(MapC({Ring(N5), Star(N5, "c"), Rev(Star(N5, "c")), {}, Full(N5), Ring(Nodes4), Star(N5, "a") \cup Rev(Star(N5, "a"))},
                                     LAMBDA x : T3(N5, x, Rev(x), x, {"nb", "dm"}))
                           \o MapC(Cliques(Nodes4), LAMBDA x : T2(N5, x, Ring(N5), {"eb"}, {"dm"})))
    [] Slice = "many" -> Canon(<< Nc("single", T1(Hubs \cup Leaves(110), Spokes(110), {"nb"}), {}, FALSE) >>)
    [] Slice = "none" -> OvC(GL1, {{}} \cup Ones(Nones(gL1)) \cup {Nones(gL1)}) \o OvC(GB3, {Nones(gB3)}) \o OvC(GP1, {Nones(gP1)})
                           \o OvC(GL2, {Nones(gL2), {x \in Nones(gL2) : x.n = "a"}, {x \in Nones(gL2) : x.r = "A2"}})
    [] Slice = "over" -> OvC(GL1, Ones(Ovs(gL1)))
    [] Slice = "over2" -> OvC(GL2, Ones(Ovs(gL2)))
    [] Slice = "overP" -> OvC(GP1, Ones(Ovs(gP1))) \o OvC(GP2, Ones(Ovs(gP2)))
    [] Slice = "overB" -> OvC(GB1, Ones(Ovs(gB1))) \o OvC(GB3, Ones(Ovs(gB3)))
    [] Slice = "fin" -> OvC(GB1, Ones(FinsOk(GB1))) \o OvC(GB3, Ones(FinsOk(GB3))) \o OvC(GL1, Ones(FinsOk(GL1)))
    [] Slice = "mix" -> LET two(gr, n, r1, r2) == {{x, y} \cup {z \in Nones(gr) : z.n # n} :
                                 x \in OvPart(gr, n, r1), y \in OvPart(gr, n, r2) \cup {X(n, r2, "none", "*", "")}} IN
                           OvC(GL1, two(gL1, "c", "A1", "A2"))
    [] Slice = "two" -> LET Bad(n, cs) == {z \in Ovs(gL1) : z.n = n /\ z.k \in {"eb", "nb"} /\ z.c \in cs} E == DOMAIN gL1.errs IN
                           OvC(GL1, {{x, y} : x \in Bad("b", E), y \in Bad("c", E \cup {"up0"})})
    \* many overrides by one party: any set of rounds, any set of the methods of one round
    [] Slice = "multi" -> LET one(n, r, k) == X(n, r, k, "*", "ok1")
                              k4 == ("A1" :> "nb") @@ ("A2" :> "dm") @@ ("A3" :> "eb") @@ ("A4" :> "nb") IN
                           OvC(GM4, UNION {{{one(n, r, k4[r]) : r \in R} : R \in {R \in SUBSET DOMAIN k4 : Cardinality(R) > 1}} : n \in N2})
                           \o OvC(GL1, UNION {{{one(n, "A1", k) : k \in Q} : Q \in {Q \in SUBSET KS : Cardinality(Q) > 1}} : n \in {"a", "c"}})
                           \o OvC(GB1, UNION {{{x, one(x.n, x.r, "nb")} : x \in {y \in FinsOk(GB1) : HasK(Compose(GB1), y.r, "nb")}}})
    [] Slice = "cross" -> LET Z == {z \in Ovs(gL1) : z.k = "dm" /\ z.d # "*" /\ z.c \in {"mpd", "mpi"}}
                              Y == {z \in Ovs(gL1) : z.k = "nb" /\ z.c = "mpn"}
                              other(S, x) == {y \in S : y.n # x.n /\ y.r = x.r} IN
                           OvC(GL1, UNION {{{x, y} : y \in other(Z, x)} : x \in Z \cup Y})
    [] Slice = "pairs" -> OvC(GL1, {{x, y} : x \in {z \in Ovs(gL1) : z.n = "b" /\ z.d \in {"*", "a"}}, y \in {z \in Ovs(gL1) : z.n = "c" /\ z.d \in {"*", "b"}}})

C == TLCGet(1)[g]
S == INSTANCE Session WITH G <- TLCGet(1)[g].g
ASSUME TLCSet(1, NetCfgs)
Header(i, c) == [cfg |-> i, shape |-> c.shape, stages |-> c.stages, ext |-> c.ext]
ASSUME LET cs == TLCGet(1) IN \A i \in 1..Len(cs) : PrintT(ToJson(Header(i, cs[i])))

(****************************** transitions ********************************)
\* What the party in state st sends to d
Ov(st, k, d) == {x \in C.ext : x.n = st.me /\ x.r = st.main /\ x.k = k /\ x.d \in {"*", d}}
Sends(st, d) ==
    LET h == S!HonestMsg(st)
        RECURSIVE Go(_, _)
        Go(m, ks) == IF ks = << >> THEN m
                     ELSE LET o == Ov(st, Head(ks), d) IN
                          Go(IF o = {} \/ ~S!Has(Head(ks), st.main) THEN m ELSE SetK(m, Head(ks), "p", (CHOOSE x \in o : TRUE).c), Tail(ks))
    IN IF st.echo THEN h ELSE Go(h, PK)
Out(st) == IF st.status # "run" THEN {} ELSE {[to |-> d, m |-> Sends(st, d)] : d \in S!Destinations(st)}

RECURSIVE AddAll(_, _)
AddAll(s, ms) == IF ms = << >> THEN {s} ELSE UNION {AddAll(S!AddProcessed(s, Head(ms), v), Tail(ms)) : v \in S!Verdicts(s, Head(ms))}

\* the calls of the protocol's finalize(): round and payloads
Called(st) == IF ~st.echo /\ S!HasEcho(st.me, st.main) THEN << >> ELSE << [r |-> st.main, pay |-> st.pay] >>

\* A party goes as far as it can: the set of [st, out, rep, fins]
RECURSIVE Settle(_, _, _)
Settle(st, out, fs) ==
    CASE S!CanFinalize(st) = "Y" ->
           LET n == S!Finalize(st).st f2 == fs \o Called(st) IN
           IF n.status # "run" THEN {[st |-> n, out |-> out, rep |-> S!Report(n, n.status), fins |-> f2]}
           ELSE UNION {Settle(s, out \cup Out(n), f2) : s \in AddAll(n, SetToSeq(n.queue))}
      [] S!CanFinalize(st) = "X" -> {[st |-> [st EXCEPT !.status = "N"], out |-> out, rep |-> S!Report(st, "N"), fins |-> fs]}
      [] OTHER -> {[st |-> st, out |-> out, rep |-> S!Report(st, "T"), fins |-> fs]}

\* all parties start
Start(n) == LET st == S!NodeInit(n) IN CHOOSE x \in Settle(st, Out(st), << >>) : TRUE
Alive(nss, ms) == {x \in ms : nss[x.to].status = "run"}
Init == /\ g \in 1..Len(TLCGet(1))
        /\ LET s == [n \in C.g.nodes |-> Start(n)] IN
           /\ ns = [n \in C.g.nodes |-> s[n].st]
           /\ rep = [n \in C.g.nodes |-> s[n].rep]
           /\ fins = [n \in C.g.nodes |-> s[n].fins]
           /\ net = Alive(ns, UNION {s[n].out : n \in C.g.nodes})

Deliver(x) ==
    LET n == x.to
        p == S!Preprocess(ns[n], x.m)
        after == IF p.o = "P" THEN {S!AddProcessed(p.st, x.m, v) : v \in S!Verdicts(p.st, x.m)} ELSE {p.st}
    IN \E s \in after : \E e \in Settle(s, {}, fins[n]) :
          /\ ns' = [ns EXCEPT ![n] = e.st]
          /\ rep' = [rep EXCEPT ![n] = e.rep]
          /\ fins' = [fins EXCEPT ![n] = e.fins]
          /\ net' = Alive(ns', (net \ {x}) \cup e.out)
          /\ UNCHANGED g
Next == IF C.canon THEN net # {} /\ Deliver(CHOOSE x \in net : TRUE) ELSE \E x \in net : Deliver(x)
Spec == Init /\ [][Next]_vars

\* What the helpers for testing misbehaviour have to say when told that t is the misbehaving party: whether
\* the execution demonstrates that everybody else can prove exactly that, and the errors they report.
Judge(t) ==
    LET others == C.g.nodes \ {t}
        ok == DOMAIN rep[t].prov = {} /\ \A n \in others : DOMAIN rep[n].prov = {t}
    IN [ok |-> ok, es |-> IF ok THEN {rep[n].prov[t].e : n \in others} ELSE {}]
Line == [g |-> g, nodes |-> [n \in C.g.nodes |-> [rep |-> rep[n], fins |-> fins[n]]],
         judge |-> IF Cardinality(C.g.nodes) > 9 THEN << >> ELSE [t \in C.g.nodes |-> Judge(t)]]
Emit == net = {} => PrintT(ToJson(Line))

(******************************* properties ********************************)
Faulty == {x.n : x \in {y \in C.ext : y.k # "none"}}
\* C05: nobody who follows the protocol is blamed by anybody who does
NoFalseBlame == \A n \in C.g.nodes \ Faulty : S!Banned(ns[n]) \subseteq Faulty
\* C04: if all follow the protocol, all finish with a result
AllFinish == net = {} /\ Faulty = {} => \A n \in C.g.nodes : rep[n].out = "R"
\* C01: whoever has finished a round with an echo has the same broadcasts as the others who have
Agreement == \A n1, n2 \in C.g.nodes \ Faulty : \A i \in DOMAIN fins[n1], j \in DOMAIN fins[n2] :
    fins[n1][i].r = fins[n2][j].r /\ S!HasEcho(n1, fins[n1][i].r) /\ S!HasEcho(n2, fins[n2][j].r) =>
        \A f \in DOMAIN fins[n1][i].pay \cap DOMAIN fins[n2][j].pay : fins[n1][i].pay[f].eb = fins[n2][j].pay[f].eb
\* C25: the helpers do not take an honest party for a misbehaving one
JudgeSound == Cardinality(C.g.nodes) \in 2..9 => \A t \in C.g.nodes : Judge(t).ok => t \in Faulty
\* a party that is done is done for a reason
Reported == \A n \in C.g.nodes : ns[n].status = "N" => S!Banned(ns[n]) # {}
=============================================================================
