-------------------------------- MODULE Slices --------------------------------
(***************************************************************************)
(* What is explored: configurations of SessionMC, grouped into slices.     *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS Slice,  \* which slice
          K,      \* how many deviating messages may be delivered
          Deep    \* see SessionMC

\* A configuration: party under test, protocol, messages, how many deviating deliveries (k),
\* how often an honest message may be delivered (max), whether processing is asynchronous.
Cf(me, shape, stages, menu, k, max, async) ==
    [me |-> me, shape |-> shape, stages |-> stages, g |-> Compose(stages), menu |-> menu, k |-> k, max |-> max, async |-> async]

Others(N, me) == N \ {me}
BC == {"b", "c"}
gL1 == Compose(GL1)  gL2 == Compose(GL2)  gL3 == Compose(GL3)  gL4 == Compose(GL4)
gP1 == Compose(GP1)  gP2 == Compose(GP2)  gB1 == Compose(GB1)  gB2 == Compose(GB2)  gB3 == Compose(GB3)
gP3 == Compose(GP3)
gX1 == Compose(GX1)  gX2 == Compose(GX2)
gC1 == Compose(GC1)  gC2 == Compose(GC2)  gC3 == Compose(GC3)  gC4 == Compose(GC4)  gC5 == Compose(GC5)
gC6 == Compose(GC6)  gC7 == Compose(GC7)

hL1 == HonAll(gL1, BC, {"A1", "A2"}, {"A1"})
hL2 == HonAll(gL2, BC, {"A1", "A2", "A3"}, {"A2", "A3"})
hL3 == HonAll(gL3, BC, {"A1"}, {"A1"})
hL4 == HonAll(gL4, {"b", "c", "d"}, {"A1"}, {"A1"})
hP1a == HonAll(gP1, {"b"}, {"A1", "A2"}, {"A1"}) \cup {HonE(gP1, "c", "A1"), Hon(gP1, "c", "A2")}
hP1c == HonAll(gP1, {"a", "b"}, {"A1", "A2"}, {"A1"})
hP2a == HonAll(gP2, BC, {"A2", "A3"}, {})
hP2b == {Hon(gP2, "a", "A1"), HonE(gP2, "c", "A1")} \cup HonAll(gP2, {"a", "c"}, {"A2", "A3"}, {})
hP3a == HonAll(gP3, {"b"}, {"A1", "A2"}, {}) \cup HonAll(gP3, BC, {"A3"}, {"A3"})
hB1a == {Hon(gB1, "b", "A1"), Hon(gB1, "c", "A1"), Hon(gB1, "b", "A2"), HonE(gB1, "b", "A2"), Hon(gB1, "b", "A3"), Hon(gB1, "c", "A3")}
hB1c == {Hon(gB1, "a", "A1"), Hon(gB1, "b", "A1"), Hon(gB1, "a", "A3"), Hon(gB1, "b", "A3")}
hB2a == HonAll(gB2, BC, {"A5"}, {"A5"}) \cup {Hon(gB2, "b", "A9"), HonE(gB2, "b", "A9"), Hon(gB2, "c", "A3"), Hon(gB2, "b", "A4"), Hon(gB2, "c", "A4")}
hB2c == HonAll(gB2, {"a", "b"}, {"A5"}, {"A5"}) \cup {Hon(gB2, "a", "A9"), Hon(gB2, "a", "A4"), Hon(gB2, "b", "A4")}
hX1 == HonAll(gX1, BC, {"A1", "A3"}, {})
hX2 == HonAll(gX2, BC, {"A1", "A3"}, {"A1"})

hC1 == HonAll(gC1, BC, {"A1", "A2", "B1"}, {"A1", "B1"})
hC2a == HonAll(gC2, BC, {"A1", "B1", "B2"}, {"A1", "B1"})
hC2b == HonAll(gC2, {"a", "c"}, {"A1", "B1", "B2"}, {"A1", "B1"}) \cup {Hon(gC2, "c", "A2")}
hC3 == HonAll(gC3, BC, {"A1", "B1", "C1", "C2"}, {"A1", "C1"})
hC4a == HonAll(gC4, BC, {"A1", "B1", "C1"}, {"A1", "B1", "C1"})
hC4b == HonAll(gC4, {"a", "c"}, {"A1", "B1", "C1"}, {"A1", "B1", "C1"}) \cup {Hon(gC4, "c", "A2"), Hon(gC4, "c", "B2")}
hC6b == HonAll(gC6, {"a", "c"}, {"A1", "B1"}, {}) \cup HonAll(gC6, {"c"}, {"A2", "A3"}, {"A2"})
hC6a == HonAll(gC6, {"b", "c"}, {"A1", "B1"}, {})
hC7b == HonAll(gC7, {"a", "c"}, {"A1", "B1", "C1"}, {}) \cup HonAll(gC7, {"c"}, {"A2", "A3", "B2", "B3"}, {"A2", "B2"})
hC5b == HonAll(gC5, {"a", "c"}, {"A1", "B1", "C1"}, {"B1"}) \cup {Hon(gC5, "c", "B2")}

\* without the messages of the first stage's echo round, to keep the number of orders down
Only(h, fs) == {m \in h : m.from \in fs}

One(me, st, h) == << Cf(me, "single", st, Menu(h, {}), 0, 1, FALSE) >>
Ch(sh, me, st, h) == << Cf(me, sh, st, Menu(h, {}), 0, 1, FALSE) >>
Dv(me, st, h, d) == << Cf(me, "single", st, Menu(h, d), K, 1, FALSE) >>
DvC(sh, me, st, h, d) == << Cf(me, sh, st, Menu(h, d), K, 1, FALSE) >>
As(me, st, h, d) == << Cf(me, "single", st, Menu(h, d), K, 1, TRUE) >>
Dup(me, st, h, d) == << Cf(me, "single", st, Menu(h, d), K, 2, TRUE) >>

\* ---- C02: metadata and signatures
XE(g, r) == EchoMsg(g, "x", r, Pack(g, "b", r))
MetaL1(f) == UNION {MetaDevs(gL1, m) \cup SigDevs(m, Forgeries) : m \in {Hon(gL1, f, "A1"), Hon(gL1, f, "A2"), HonE(gL1, f, "A1")}}
Strangers == {Hon(gL1, "x", "A1"), Hon(gL1, "x", "A2"), XE(gL1, "A1"), Hon(gL1, "a", "A1"), Hon(gL1, "a", "A2")}
MetaL2(f) == UNION {MetaDevs(gL2, m) \cup SigDevs(m, {"bad", "undes", "kind"}) :
                      m \in {Hon(gL2, f, "A1"), Hon(gL2, f, "A2"), Hon(gL2, f, "A3"), HonE(gL2, f, "A2")}}
MetaC(g, f, rs) == UNION {MetaDevs(g, m) \cup SigDevs(m, {"bad", "sess", "round"}) : m \in {Hon(g, f, r) : r \in rs}}
UnexpP == {Hon(gP1, "c", "A1"), XE(gP1, "A1"), Hon(gP1, "x", "A2")}
Unexp3 == {Hon(gP3, "c", r) : r \in {"A1", "A2"}} \cup {SetAll(Hon(gP3, "c", r), "s", "X") : r \in {"A1", "A2"}}
          \cup {SetK(Hon(gP3, "c", "A3"), "dm", "g", "bad")} \cup PayDevs(gP3, "b", "A1") \cup {SetK(Hon(gP3, "b", "A3"), "eb", "p", "garb")}
MetaX == UNION {MetaDevs(gL1, m) \cup SigDevs(m, Forgeries) : m \in {Hon(gL1, "x", "A1"), Hon(gL1, "x", "A2")}}

\* ---- C08: contents
PayL1(f) == UNION {PayDevs(gL1, f, r) \cup UpDevs(gL1, f, r) \cup MpDevs(gL1, f, r) : r \in {"A1", "A2"}}
            \cup EchoPayDevs(gL1, f, "A1")
PayL2(f) == UNION {PayDevs(gL2, f, r) \cup UpDevs(gL2, f, r) \cup MpDevs(gL2, f, r) : r \in {"A1", "A2", "A3"}}
            \cup EchoPayDevs(gL2, f, "A2") \cup EchoPayDevs(gL2, f, "A3")
PayP2(f) == UNION {PayDevs(gP2, f, r) \cup MpDevs(gP2, f, r) : r \in {"A1", "A2"}} \cup EchoPayDevs(gP2, f, "A1")
PayP1(f) == PayDevs(gP1, f, "A1") \cup MpDevs(gP1, f, "A2")
PayC(g, f, rs) == UNION {PayDevs(g, f, r) \cup UpDevs(g, f, r) \cup MpDevs(g, f, r) : r \in rs}
MpC(g, f, rs) == UNION {MpDevs(g, f, r) : r \in rs}
\* one of each class
FewL1(f) == {SetK(Hon(gL1, f, "A1"), "eb", "p", "garb"), SetK(Hon(gL1, f, "A1"), "nb", "p", "up0"), SetAll(Hon(gL1, f, "A1"), "s", "X"),
             SetK(Hon(gL1, f, "A2"), "dm", "p", "mpg"), SetK(Hon(gL1, f, "A2"), "nb", "g", "bad"),
             EchoMsg(gL1, f, "A1", E0), EchoMsg(gL1, f, "A1", [Pack(gL1, f, "A1") EXCEPT !["a"].g = "bad"])}
             \cup EqDevs(gL1, "a", f, "A1")
FewL2(f) == {SetK(Hon(gL2, f, "A1"), "nb", "p", "garb"), SetK(Hon(gL2, f, "A2"), "dm", "p", "up0"), SetK(Hon(gL2, f, "A3"), "eb", "p", "mpf"),
             SetAll(Hon(gL2, f, "A2"), "s", "X"), EchoMsg(gL2, f, "A2", E0)} \cup EqDevs(gL2, "a", f, "A3")

\* ---- C01: equivocation
EqL3 == UNION {AltDevs(gL3, f, "A1") \cup EqDevs(gL3, "a", f, "A1") : f \in BC}
EqL4 == UNION {AltDevs(gL4, f, "A1") \cup EqDevs(gL4, "a", f, "A1") : f \in {"b", "c"}}
EqP1a == AltDevs(gP1, "b", "A1") \cup EqDevs(gP1, "a", "b", "A1") \cup EqDevs(gP1, "a", "c", "A1")
EqP1c == AltDevs(gP1, "b", "A1") \cup AltDevs(gP1, "a", "A1") \cup EqDevs(gP1, "c", "b", "A1") \cup EqDevs(gP1, "c", "a", "A1")
EqP2 == AltDevs(gP2, "a", "A1") \cup EqDevs(gP2, "b", "c", "A1")

\* ---- C14: any round at any time
RoundsL1 == RoundDevs(gL1, Hon(gL1, "b", "A1"), {"A2e", "A3", "A0", "A7", "A1e"}) \cup RoundDevs(gL1, HonE(gL1, "b", "A1"), {"A7e"})
RoundsG(g, f, h) == RoundDevs(g, h, UNION {{r, EchoOf(r)} : r \in DOMAIN g.rounds} \cup {"A8", "A8e"})

\* ---- C09/C19: topologies
Packs(dst, exp, part, tgt, f) == LET w == IF part = "R" THEN exp ELSE exp \cup {"a"} IN [x \in w \ {f} |-> EntryOf("A1")]
TopoH(gr, dst, exp, part, tgt) ==
    {Hon(gr, f, "A1") : f \in exp} \cup {EchoMsg(gr, f, "A1", Packs(dst, exp, part, tgt, f)) : f \in (IF part = "R" THEN tgt ELSE dst)}
Topo(dst, exp, k, part, tgt) == LET gr == GT(dst, exp, k, part, tgt) IN
    Cf("a", "single", gr, Menu(TopoH(Compose(gr), dst, exp, part, tgt), {}), 0, 1, FALSE)
PTs == {<<"D", {}>>, <<"S", {}>>, <<"R", {}>>, <<"R", {"b"}>>, <<"R", {"b", "c"}>>}
\* those that a protocol may have: a party that echoes needs something to echo (its own or others' broadcasts)
TopoSet == {x \in (SUBSET BC) \X (SUBSET BC) \X (SUBSET KS) \X PTs :
              /\ (x[4][1] # "D" => "eb" \in x[3])
              /\ (x[3] = {} => x[1] = {} /\ x[2] = {})}
TopoSeq == SetToSeq(TopoSet)
Topos == [i \in 1..Len(TopoSeq) |-> LET x == TopoSeq[i] IN Topo(x[1], x[2], x[3], x[4][1], x[4][2])]

Cfgs ==
  CASE \* all orders of honest messages
       Slice = "orderL" -> One("a", GL1, hL1) \o One("a", GL2, hL2) \o One("a", GL3, hL3)
    [] Slice = "orderL4" -> One("a", GL4, hL4)
    [] Slice = "orderA" -> As("a", GL1, hL1, {}) \o As("a", GL3, hL3, {}) \o As("b", GP2, hP2b, {}) \o As("c", GP1, hP1c, {})
    [] Slice = "orderP" -> One("a", GP1, hP1a) \o One("c", GP1, hP1c) \o One("a", GP2, hP2a) \o One("b", GP2, hP2b)
    [] Slice = "orderB" -> One("a", GB1, hB1a) \o One("c", GB1, hB1c) \o One("a", GB2, hB2a) \o One("c", GB2, hB2c)
    [] Slice = "undeclared" -> One("a", GX1, hX1) \o One("a", GX2, hX2)
    [] Slice = "orderC" -> Ch("chain2", "a", GC1, hC1)
    [] Slice = "orderC2" -> Ch("chain2", "a", GC2, hC2a)
    [] Slice = "orderC2b" -> Ch("chain2", "b", GC2, hC2b)
    [] Slice = "orderCL" -> Ch("chainL", "a", GC3, hC3)
    [] Slice = "orderCR" -> Ch("chainR", "a", GC3, hC3)
    [] Slice = "orderC4" -> Ch("chainL", "a", GC4, hC4a) \o Ch("chainR", "a", GC4, hC4a)
    [] Slice = "orderC4b" -> Ch("chainL", "b", GC4, hC4b) \o Ch("chainR", "b", GC4, hC4b)
    [] Slice = "orderC5" -> Ch("chainL", "b", GC5, hC5b) \o Ch("chainR", "b", GC5, hC5b)
    [] Slice = "orderC6" -> Ch("chain2", "b", GC6, hC6b) \o Ch("chain2", "a", GC6, hC6a)
    [] Slice = "orderC7" -> Ch("chainL", "b", GC7, hC7b) \o Ch("chainR", "b", GC7, hC7b)
       \* topologies
    [] Slice = "topo" -> Topos
       \* metadata and signatures
    [] Slice = "meta" -> Dv("a", GL1, hL1, MetaL1("b"))
    [] Slice = "metaS" -> Dv("a", GL1, hL1, Strangers \cup MetaX) \o Dv("a", GP1, hP1a, UnexpP)
    [] Slice = "meta2" -> Dv("a", GL2, hL2, MetaL2("b"))
    [] Slice = "metaC" -> DvC("chain2", "a", GC1, hC1, MetaC(gC1, "b", {"A1", "A2", "B1"}))
       \* messages of and to parties that are not expected to talk
    [] Slice = "silent" -> Dv("a", GP3, hP3a, Unexp3)
       \* contents
    [] Slice = "pay" -> Dv("a", GL1, hL1, PayL1("b"))
    [] Slice = "pay2" -> Dv("a", GL2, hL2, PayL2("b"))
    [] Slice = "payP" -> Dv("b", GP2, hP2b, PayP2("a") \cup PayP2("c")) \o Dv("c", GP1, hP1c, PayP1("a")) \o Dv("a", GP1, hP1a, PayP1("b"))
    [] Slice = "payC1" -> DvC("chain2", "a", GC1, hC1, PayC(gC1, "b", {"A1", "A2", "B1"}))
    [] Slice = "payC2" -> DvC("chain2", "a", GC2, hC2a, PayC(gC2, "b", {"B1", "B2"}))
    [] Slice = "mpC2b" -> DvC("chain2", "b", GC2, hC2b, MpC(gC2, "c", {"A2", "B2"}))
    [] Slice = "mpCL" -> DvC("chainL", "a", GC3, hC3, MpC(gC3, "b", {"A1", "B1", "C1", "C2"}))
    [] Slice = "mpCR" -> DvC("chainR", "a", GC3, hC3, MpC(gC3, "b", {"A1", "B1", "C1", "C2"}))
       \* echo packs
    [] Slice = "pack" -> Dv("a", GL3, hL3, UNION {PackDevs(gL3, "a", f, "A1") : f \in BC}) \o Dv("a", GL3, hL3, UNION {PackDevs2(gL3, "a", f, "A1") : f \in BC})
    [] Slice = "packL" -> Dv("a", GL1, hL1, PackDevs(gL1, "a", "b", "A1"))
    [] Slice = "packC" -> DvC("chain2", "a", GC1, hC1, PackDevs(gC1, "a", "b", "B1") \cup EqDevs(gC1, "a", "c", "B1"))
    [] Slice = "equiv" -> Dv("a", GL3, hL3, EqL3) \o Dv("a", GP1, hP1a, EqP1a) \o Dv("c", GP1, hP1c, EqP1c) \o Dv("b", GP2, hP2b, EqP2)
    [] Slice = "equiv4" -> Dv("a", GL4, hL4, EqL4)
       \* duplicates
    [] Slice = "dup" -> Dup("a", GL3, hL3, AltDevs(gL3, "b", "A1"))
    [] Slice = "dupL" -> Dup("a", GL1, Only(hL1, {"b"}), AltDevs(gL1, "b", "A1") \cup AltDevs(gL1, "b", "A2") \cup Only(hL1, {"c"}))
    [] Slice = "dupP" -> Dup("b", GP2, Only(hP2b, {"a"}), AltDevs(gP2, "a", "A2") \cup Only(hP2b, {"c"}))
       \* several faults
    [] Slice = "dead" -> Dv("a", GL1, hL1, FewL1("b") \cup FewL1("c"))
    [] Slice = "deadA" -> As("a", GL1, hL1, FewL1("b") \cup FewL1("c"))
    [] Slice = "dead2" -> Dv("a", GL2, hL2, FewL2("b") \cup FewL2("c"))
       \* rounds
    [] Slice = "rounds" -> Dv("a", GL1, hL1, RoundsL1) \o Dv("a", GB1, hB1a, RoundsG(gB1, "b", Hon(gB1, "b", "A1")))
                           \o Dv("a", GB2, hB2a, RoundsG(gB2, "b", Hon(gB2, "b", "A4"))) \o Dv("c", GB2, hB2c, RoundsG(gB2, "b", Hon(gB2, "b", "A4")))
    [] Slice = "roundsP" -> Dv("b", GP2, hP2b, RoundsG(gP2, "a", Hon(gP2, "a", "A1"))) \o Dv("a", GP2, hP2a, RoundsG(gP2, "b", Hon(gP2, "b", "A2")))
                           \o Dv("a", GL2, hL2, RoundsG(gL2, "b", Hon(gL2, "b", "A2")))
    [] Slice = "roundsC" -> DvC("chain2", "b", GC2, hC2b, RoundsG(gC2, "a", Hon(gC2, "a", "A1")))
    [] Slice = "roundsC6" -> DvC("chain2", "b", GC6, hC6b, RoundsG(gC6, "a", Hon(gC6, "a", "A1"))) \o DvC("chain2", "a", GC6, hC6a, RoundsG(gC6, "b", Hon(gC6, "b", "A1")))
    [] Slice = "mpC6" -> DvC("chain2", "b", GC6, hC6b, MpC(gC6, "c", {"A1", "A2", "A3", "B1"}) \cup MpC(gC6, "a", {"A1", "B1"}))
    [] Slice = "roundsC4" -> DvC("chainL", "a", GC4, Only(hC4a, {"b", "c"}), RoundsG(gC4, "b", Hon(gC4, "b", "A1")))
=============================================================================
