-------------------------------- MODULE Evidence --------------------------------
(***************************************************************************)
(* What evidence of misbehaviour proves.  An evidence object is made of    *)
(* message parts somebody signed (by honest parties in any round, session  *)
(* and kind; by malicious ones with any content), arbitrarily chosen and   *)
(* labelled.  `Verifies` tells which objects are accepted, `Sees` what the *)
(* protocol's own check is given.  Starting from genuine evidence of every *)
(* kind (for every way to misbehave), all objects within K changes are     *)
(* enumerated and checked not to frame an honest party; the harness builds *)
(* every one of them for the real code and compares the verdicts.          *)
(*                                                                         *)
(* A part: [by, s, r, k, c, g, em]  signer, session, round, kind, content, *)
(*   g = "ok" or the way the signature is forged, em the echo pack         *)
(*   (the kind is that of the signature: parts do not name it)             *)
(* An entry of an echo pack: [by, s, r, k, v, g]                           *)
(***************************************************************************)
EXTENDS Graphs, Json

CONSTANTS K, Which

M == "m"      \* the malicious party
\* parties: a keeps the evidence, h is another honest one, m misbehaves
N3 == {"a", "h", "m"}

(******************************* protocols *********************************)
EvErr == ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {})) @@ ("mpn" :> Err({"nb"}, E0, {}))
         @@ ("inc1" :> Err({"nb", "dm"}, ("A1" :> {"eb", "nb", "dm"}), {}))
         @@ ("inc2" :> Err({"dm"}, ("A1" :> {"eb"}), {"A1"}))
         @@ ("inc3" :> Err({"dm", "eb", "nb"}, E0, {}))
         @@ ("inc4" :> Err({"nb"}, E0, {"A1", "A2"}))
         @@ ("inc6" :> Err({"nb"}, ("A1" :> {"dm"}), {}))
         @@ ("inc7" :> Err({"nb"}, ("A2" :> {"eb"}), {}))
         @@ ("inc5" :> Err({"nb"}, ("A1" :> {"nb"}) @@ ("A2" :> {"nb", "eb"}), {"A2"}))
EvL == << Stage(N3, "A1",
            ("A1" :> Rd(N3, {}, {}, {"A2"}, {"eb", "nb", "dm"}, "A2")) @@
            ("A2" :> Rd(N3, {"A1"}, {}, {"A3"}, {"eb", "nb", "dm"}, "A3")) @@
            ("A3" :> Rd(N3, {"A2"}, {}, {}, {"nb"}, "RESULT")), EvErr) >>
\* with a round that has no errors of its own
EvP == << Stage(N3, "A1",
            ("A1" :> Rd(N3, {}, {}, {"A2"}, {"eb", "nb", "dm"}, "A2")) @@
            ("A2" :> Rd(N3, {"A1"}, {}, {"A3"}, {"eb", "nb", "dm"}, "A3")) @@
            ("A3" :> Rd(N3, {"A2"}, {}, {"A4"}, {"nb"}, "A4")) @@
            ("A4" :> (Rd(N3, {"A3"}, {}, {}, {"nb", "dm"}, "RESULT") @@ ("quiet" :> TRUE))), EvErr) >>
\* an error made of nothing, which is what an error of a round without errors looks like
UnitE == "unit"
EvStE(x) == Stage(N3, x \o "1",
       ((x \o "1") :> Rd(N3, {}, {}, {x \o "2"}, {"eb", "dm"}, x \o "2")) @@
       ((x \o "2") :> Rd(N3, {x \o "1"}, {}, {}, {"nb", "dm"}, "RESULT")),
       ((x \o "inc") :> Err({"dm", "nb"}, ((x \o "1") :> {"eb", "dm"}), {x \o "1"}))
       @@ ((x \o "incd") :> Err({"nb"}, ((x \o "1") :> {"dm"}), {}))
       @@ ((x \o "mpd") :> Err({"dm"}, E0, {})))
EvC2 == << EvStE("A"), EvStE("B") >>
EvC3 == << EvStE("A"), EvStE("B"), EvStE("C") >>

\* m alone broadcasts in the first round (to a and h, who echo that to each other), so that its own echo is empty
Solo(q) == [q EXCEPT !.dst = [n \in N3 |-> IF n = M THEN {"a", "h"} ELSE {}],
                     !.exp = [n \in N3 |-> IF n = M THEN {} ELSE {M}],
                     !.part = [n \in N3 |-> IF n = M THEN "D" ELSE "R"],
                     !.tgt = [n \in N3 |-> IF n = M THEN {} ELSE N3 \ {n}]]
EvW == << Stage(N3, "A1",
            ("A1" :> Solo(Rd(N3, {}, {}, {"A2"}, {"eb"}, "A2"))) @@
            ("A2" :> Rd(N3, {"A1"}, {}, {"A3"}, {"eb", "dm"}, "A3")) @@
            ("A3" :> Rd(N3, {"A2"}, {}, {}, {"nb"}, "RESULT")),
            ("inc8" :> Err({"nb"}, E0, {"A1"})) @@ ("inc9" :> Err({"nb"}, ("A2" :> {"dm"}), {"A1", "A2"}))) >>

(********************************* parts ***********************************)
Main(r) == IF SubSeq(r, Len(r), Len(r)) = "e" THEN SubSeq(r, 1, Len(r) - 1) ELSE r
IsEcho(r) == SubSeq(r, Len(r), Len(r)) = "e"
Letter(r) == SubSeq(r, 1, 1)
OkOf(s) == IF s = "S" THEN "ok0" ELSE "okY"
P(by, s, r, k, c) == [by |-> by, s |-> s, r |-> r, k |-> k, c |-> c, g |-> "ok", em |-> E0]
En(by, s, r, k, v) == [by |-> by, s |-> s, r |-> r, k |-> k, v |-> v, g |-> "ok"]
HonPack(g, by, s, r) == [P(by, s, EchoOf(r), "nb", "echo") EXCEPT !.em =
                            [x \in g.rounds[r].exp[by] |-> En(x, s, r, "eb", OkOf(s))]]
\* the part an honest party signs in (session, round, kind)
HonPart(g, by, s, r, k) ==
    IF IsEcho(r) THEN (IF k = "nb" THEN HonPack(g, by, s, Main(r)) ELSE P(by, s, r, k, "none"))
    ELSE P(by, s, r, k, IF HasK(g, r, k) /\ g.rounds[r].dst[by] # {} THEN OkOf(s) ELSE "none")
EchoRounds(g) == {r \in DOMAIN g.rounds : g.rounds[r].eb}
AllRounds(g) == DOMAIN g.rounds \cup {EchoOf(r) : r \in EchoRounds(g)}

(******************************** verdicts *********************************)
Auth(p, k, who) == p.by = who /\ p.k = k /\ p.g = "ok"
EntryAuth(e, who) == e.by = who /\ e.k = "eb" /\ e.g = "ok"
Same(p, q) == p.s = q.s /\ p.r = q.r

InvalidContent(g, k, r, c) ==
    IF IsEcho(r) THEN (IF k = "nb" THEN c # "echo" ELSE c # "none")
    ELSE /\ r \in DOMAIN g.rounds
         /\ IF HasK(g, r, k) THEN c \in {"garb", "none", "echo"} ELSE c # "none"

\* Evidence of a protocol error: trigger, and the consistency of everything attached
Trigger(o) == IF "this.dm" \in DOMAIN o.slots THEN o.slots["this.dm"]
              ELSE IF "this.eb" \in DOMAIN o.slots THEN o.slots["this.eb"] ELSE o.slots["this.nb"]
Slot(o, pre) == {x \in DOMAIN o.slots : SubSeq(x, 1, Len(pre)) = pre}
KindOf(x) == SubSeq(x, Len(x) - 1, Len(x))
ThisSlots(o) == Slot(o, "this.")
PrevSlots(o) == Slot(o, "prev.")
HashSlots(o) == Slot(o, "hash.")
OthSlots(o) == Slot(o, "oth.")

HashFine(o, x, s) ==
    LET p == o.slots[x] r == o.keys[x] IN
    /\ Auth(p, "nb", o.guilty) /\ p.c = "echo" /\ IsEcho(p.r) /\ p.s = s /\ Main(p.r) = r
    /\ \A w \in DOMAIN p.em :
         LET e == p.em[w] IN
         /\ e.s = s /\ e.r = r /\ EntryAuth(e, w)
         /\ \E y \in OthSlots(o) : o.keys[y] = r /\ o.who[y] = w /\
               LET q == o.slots[y] IN Auth(q, "eb", w) /\ q.s = s /\ q.r = r /\ q.c = e.v
ProtConsistent(g, o) ==
    /\ ThisSlots(o) # {}
    /\ LET t == Trigger(o) IN
       /\ \A x \in ThisSlots(o) : Same(o.slots[x], t) /\ Auth(o.slots[x], KindOf(x), o.guilty)
       /\ \A x \in PrevSlots(o) : LET p == o.slots[x] IN Auth(p, KindOf(x), o.guilty) /\ p.s = t.s /\ p.r = o.keys[x]
       /\ \A x \in HashSlots(o) : HashFine(o, x, t.s)
       /\ t.r \in DOMAIN g.rounds

\* an error of one stage, seen from another stage
Shift(l, r) == l \o SubSeq(r, 2, Len(r))
Body(p) == [by |-> p.by, r |-> p.r, k |-> p.k, c |-> p.c]
\* What the check of error e sees, or "" if something it wants is not there
HasPrev(o, r, k) == \E x \in PrevSlots(o) : o.keys[x] = r /\ KindOf(x) = k
PrevPart(o, r, k) == o.slots[CHOOSE x \in PrevSlots(o) : o.keys[x] = r /\ KindOf(x) = k]
HashPart(o, r) == o.slots[CHOOSE x \in HashSlots(o) : o.keys[x] = r]
Decodes(p) == p.c \notin {"none", "garb", "echo"}
Quiet(q) == q.quiet
Complete(g, o) ==
    o.e # UnitE /\ ~Quiet(g.rounds[Trigger(o).r]) /\ LET q == g.errs[o.e] l == Letter(Trigger(o).r) IN
    /\ \A k \in q.this : HasK(g, Trigger(o).r, k) => ("this." \o k) \in DOMAIN o.slots /\ Decodes(o.slots["this." \o k])
    /\ \A k \in q.this : ~HasK(g, Trigger(o).r, k) => ("this." \o k) \in DOMAIN o.slots /\ o.slots["this." \o k].c = "none"
    /\ \A r \in DOMAIN q.prev : \A k \in q.prev[r] : HasPrev(o, Shift(l, r), k) /\ Decodes(PrevPart(o, Shift(l, r), k))
    /\ \A r \in q.echos : \E x \in HashSlots(o) : o.keys[x] = Shift(l, r)
    /\ \A r \in q.echos : \A x \in HashSlots(o) : o.keys[x] = Shift(l, r) =>
            \A w \in DOMAIN o.slots[x].em : o.slots[x].em[w].v # "garb"
Sees(g, o) ==
    LET q == g.errs[o.e] l == Letter(Trigger(o).r) IN
    [ this |-> [k \in {x \in q.this : HasK(g, Trigger(o).r, x)} |-> Body(o.slots["this." \o k])],
      prev |-> [r \in {Shift(l, x) : x \in DOMAIN q.prev} |->
                  [k \in q.prev[CHOOSE x \in DOMAIN q.prev : Shift(l, x) = r] |-> Body(PrevPart(o, r, k))]],
      echos |-> [r \in {Shift(l, x) : x \in q.echos} |->
                  [w \in DOMAIN HashPart(o, r).em |-> [by |-> w, r |-> r, k |-> "eb", c |-> HashPart(o, r).em[w].v]]] ]
\* The rule of our protocols: an error is proven by a part of the message that carries its name; an error
\* "..inc.." also by parts of the guilty party with different contents, or by parts that are not from the
\* round, of the kind and by the party they are supposed to be
IsInc(e) == \E i \in 1..(Len(e) - 2) : SubSeq(e, i, i + 2) = "inc"
Guilty(g, o) ==
    LET se == Sees(g, o)
        mine == {se.this[k] : k \in DOMAIN se.this} \cup UNION {{se.prev[r][k] : k \in DOMAIN se.prev[r]} : r \in DOMAIN se.prev}
        Is(b, by, r, k) == b.by = by /\ b.r = r /\ b.k = k
        strange == \/ \E k \in DOMAIN se.this : ~Is(se.this[k], o.guilty, Trigger(o).r, k)
                   \/ \E r \in DOMAIN se.prev : \E k \in DOMAIN se.prev[r] : ~Is(se.prev[r][k], o.guilty, r, k)
                   \/ \E r \in DOMAIN se.echos : \E w \in DOMAIN se.echos[r] : ~Is(se.echos[r][w], w, r, "eb")
    IN \/ \E k \in DOMAIN se.this : se.this[k].c = o.e
       \/ IsInc(o.e) /\ (strange \/ \E x, y \in mine : x.c # y.c)

Verifies(g, o) ==
    CASE o.t = "inv" -> LET p == o.slots["part"] IN Auth(p, o.kind, o.guilty) /\ InvalidContent(g, o.kind, p.r, p.c)
      [] o.t = "badecho" -> LET p == o.slots["part"] IN
            /\ Auth(p, "nb", o.guilty) /\ p.c = "echo" /\ IsEcho(p.r) /\ o.acc \in DOMAIN p.em
            /\ LET e == p.em[o.acc] IN ~EntryAuth(e, o.acc) \/ e.s # p.s \/ e.r # Main(p.r)
      [] o.t = "mism" -> LET p == o.slots["part"] IN
            /\ o.acc = o.guilty /\ Auth(p, "eb", o.acc) /\ EntryAuth(o.entry, o.acc)
            /\ p.s = o.entry.s /\ p.r = o.entry.r /\ p.c # o.entry.v
      [] OTHER -> ProtConsistent(g, o) /\ Complete(g, o) /\ Guilty(g, o)

(**************************** genuine evidence *****************************)
O(t, kind, e, slots, keys, who, acc, entry) ==
    [t |-> t, kind |-> kind, e |-> e, slots |-> slots, keys |-> keys, who |-> who, acc |-> acc, entry |-> entry, guilty |-> M]
NoEntry == En("", "", "A1", "", "")
PartsOf(m, k) == LET x == GetK(m, k) IN [P(m.from, x.s, x.r, k, x.p) EXCEPT !.em =
                    [w \in DOMAIN m.em |-> [by |-> w, s |-> m.em[w].s, r |-> m.em[w].r, k |-> m.em[w].k, v |-> m.em[w].v, g |-> m.em[w].g]]]
InvObj(m, k) == O("inv", k, "", ("part" :> PartsOf(m, k)), E0, E0, "", NoEntry)
BadEchoObj(m, w) == O("badecho", "nb", "", ("part" :> PartsOf(m, "nb")), E0, E0, w, NoEntry)
MismObj(m1, v) == O("mism", "eb", "", ("part" :> PartsOf(m1, "eb")), E0, E0, M, En(M, "S", m1.eb.r, "eb", v))
ProtObj(g, m, e) ==
    LET q == g.errs[e]
        this == [x \in {"this." \o k : k \in q.this} |-> PartsOf(m, KindOf(x))]
        RECURSIVE Union(_)
        Union(fs) == IF fs = << >> THEN E0 ELSE Head(fs) @@ Union(Tail(fs))
        PrevN(r, k) == "prev." \o r \o "." \o k
        pk == {<<r, k>> \in (DOMAIN q.prev) \X KS : k \in q.prev[r]}
        prev == [x \in {PrevN(z[1], z[2]) : z \in pk} |->
                    LET z == CHOOSE z \in pk : PrevN(z[1], z[2]) = x IN HonPart(g, M, "S", z[1], z[2])]
        hash == [x \in {"hash." \o r : r \in q.echos} |-> HonPart(g, M, "S", EchoOf(SubSeq(x, 6, Len(x))), "nb")]
        ow == {<<r, w>> \in q.echos \X N3 : w \in (g.rounds[r].exp["a"] \cup {"a"}) \ {M}}
        OthN(r, w) == "oth." \o r \o "." \o w
        oth == [x \in {OthN(z[1], z[2]) : z \in ow} |->
                    LET z == CHOOSE z \in ow : OthN(z[1], z[2]) = x IN HonPart(g, z[2], "S", z[1], "eb")]
        keys == [x \in {PrevN(z[1], z[2]) : z \in pk} |-> (CHOOSE z \in pk : PrevN(z[1], z[2]) = x)[1]]
                @@ [x \in {"hash." \o r : r \in q.echos} |-> SubSeq(x, 6, Len(x))]
                @@ [x \in {OthN(z[1], z[2]) : z \in ow} |-> (CHOOSE z \in ow : OthN(z[1], z[2]) = x)[1]]
        who == [x \in {OthN(z[1], z[2]) : z \in ow} |-> (CHOOSE z \in ow : OthN(z[1], z[2]) = x)[2]]
    IN O("prot", "", e, this @@ prev @@ hash @@ oth, keys, who, "", NoEntry)

\* Everything up to (not including) m's message in round r (an echo round, perhaps), all by the book
Rank(g) == LET RECURSIVE Go(_)
               Go(r) == IF r = "RESULT" THEN << >>
                        ELSE <<r>> \o (IF g.rounds[r].eb THEN <<EchoOf(r)>> ELSE << >>) \o Go(g.rounds[r].next["a"])
           IN Go(g.entry)
HonMsg(g, f, r) == IF IsEcho(r) THEN HonE(g, f, Main(r)) ELSE Hon(g, f, r)
Before(g, r) == LET rk == Rank(g) i == CHOOSE x \in 1..Len(rk) : rk[x] = r
                    RECURSIVE Go(_)
                    Sends(f, q) == LET rq == g.rounds[Main(q)] IN
                        IF IsEcho(q) THEN f \in (IF rq.part["a"] = "R" THEN rq.tgt["a"] ELSE rq.dst["a"]) ELSE f \in rq.exp["a"]
                    From(f, q) == IF Sends(f, q) THEN <<HonMsg(g, f, q)>> ELSE << >>
                    Go(j) == IF j >= i THEN << >> ELSE From("h", rk[j]) \o From(M, rk[j]) \o Go(j + 1)
                IN Go(1)
Tpl(shape, st, r, msgs, obj) == [shape |-> shape, stages |-> st, script |-> Before(Compose(st), r) \o msgs, obj |-> obj]

InvTpl(shape, st, r, k, p) == LET g == Compose(st) m == SetK(HonMsg(g, M, r), k, "p", p) IN
    Tpl(shape, st, r, <<m>>, InvObj(m, k))
ProtTpl(shape, st, r, carrier, e) == LET g == Compose(st) m == SetK(Hon(g, M, r), carrier, "p", e) IN
    Tpl(shape, st, r, <<m>>, ProtObj(g, m, e))
BadEchoTpl(shape, st, r, w, field, v) ==
    LET g == Compose(st) pk == Pack(g, M, r) m == EchoMsg(g, M, r, [pk EXCEPT ![w][field] = v]) IN
    Tpl(shape, st, EchoOf(r), <<m>>, BadEchoObj(m, w))
MismTpl(shape, st, r) ==
    LET g == Compose(st) m == HonE(g, "h", r) IN
    Tpl(shape, st, EchoOf(r), <<[m EXCEPT !.em[M].v = "ok1"]>>, MismObj(Hon(g, M, r), "ok1"))

TplsL == << InvTpl("single", EvL, "A1", "dm", "garb"), InvTpl("single", EvL, "A1", "eb", "none"), InvTpl("single", EvL, "A1", "nb", "garb"),
            InvTpl("single", EvL, "A3", "dm", "ok0"), InvTpl("single", EvL, "A3", "eb", "ok0"), InvTpl("single", EvL, "A1e", "nb", "garb"),
            InvTpl("single", EvL, "A1e", "dm", "ok0"), InvTpl("single", EvL, "A2e", "eb", "ok0"),
            BadEchoTpl("single", EvL, "A1", "h", "g", "bad"), BadEchoTpl("single", EvL, "A1", "a", "s", "X"), BadEchoTpl("single", EvL, "A2", "h", "r", "A1"),
            BadEchoTpl("single", EvL, "A2", "a", "g", "undes"), BadEchoTpl("single", EvL, "A1", "a", "k", "nb"),
            MismTpl("single", EvL, "A1"), MismTpl("single", EvL, "A2") >>
TplsP == << ProtTpl("single", EvP, "A1", "dm", "mpd"), ProtTpl("single", EvP, "A2", "eb", "mpe"), ProtTpl("single", EvP, "A3", "nb", "mpn"),
            ProtTpl("single", EvP, "A2", "dm", "inc1"), ProtTpl("single", EvP, "A2", "dm", "inc2"), ProtTpl("single", EvP, "A1", "nb", "inc3"),
            ProtTpl("single", EvP, "A3", "nb", "inc4"), ProtTpl("single", EvP, "A3", "nb", "inc5"),
            ProtTpl("single", EvP, "A2", "nb", "inc6"), ProtTpl("single", EvP, "A3", "nb", "inc7") >>
TplsW == << ProtTpl("single", EvW, "A3", "nb", "inc8"), ProtTpl("single", EvW, "A3", "nb", "inc9"),
            InvTpl("single", EvW, "A1e", "nb", "garb"), MismTpl("single", EvW, "A1") >>
TplsC(shape, st) ==
    LET ls == [i \in 1..Len(st) |-> Letter(st[i].entry)]
        one(l) == << ProtTpl(shape, st, l \o "2", "dm", l \o "inc"), ProtTpl(shape, st, l \o "2", "nb", l \o "incd"), InvTpl(shape, st, l \o "2", "eb", "ok0"), InvTpl(shape, st, l \o "1e", "nb", "garb"),
                     BadEchoTpl(shape, st, l \o "1", "h", "g", "bad"), MismTpl(shape, st, l \o "1") >>
        RECURSIVE Go(_)
        Go(i) == IF i > Len(ls) THEN << >> ELSE one(ls[i]) \o Go(i + 1)
    IN Go(1)

Tpls == CASE Which = "L" -> TplsL [] Which = "P" -> TplsP [] Which = "W" -> TplsW
          [] Which = "C2" -> TplsC("chain2", EvC2) [] Which = "CL" -> TplsC("chainL", EvC3) [] Which = "CR" -> TplsC("chainR", EvC3)

(******************************* enumeration *******************************)
ASSUME TLCSet(1, [i \in 1..Len(Tpls) |-> [tpl |-> Tpls[i], g |-> Compose(Tpls[i].stages)]])
T(i) == TLCGet(1)[i]
Header(i) == LET x == T(i).tpl IN [cfg |-> i, me |-> "a", shape |-> x.shape, stages |-> x.stages, menu |-> x.script, obj |-> x.obj]
ASSUME \A i \in 1..Len(TLCGet(1)) : PrintT(ToJson(Header(i)))

\* everything anybody may have signed, as far as it matters for a slot of kind k
\* (m signs anything; the others only what the protocol says)
Ss == {"S", "Y"}
Honests(g, by) == UNION {{HonPart(g, by, s, r, k) : k \in KS} : s \in Ss, r \in AllRounds(g)}
Forged(g, by) == LET base == {HonPart(g, by, "S", r, k) : k \in KS, r \in AllRounds(g)} IN
    {[p EXCEPT !.g = x] : p \in base, x \in {"sess", "round", "echoround", "other"}}
    \cup {[p EXCEPT !.g = "tamper", !.c = "garb", !.em = E0] : p \in base}
    \cup {[p EXCEPT !.g = "bad"] : p \in base}
Devious(g) == {P(M, "S", r, k, c) : r \in AllRounds(g), k \in KS, c \in {"garb", "none", "ok1"}}
              \cup {[HonPack(g, M, "S", r) EXCEPT !.em = [@ EXCEPT !["h"].v = "ok1"]] : r \in {x \in EchoRounds(g) : "h" \in g.rounds[x].exp[M]}}
\* an honest pack of a run in which m equivocated
OddPack(g, by) == IF by = M THEN {} ELSE {[HonPack(g, by, "S", r) EXCEPT !.em = [@ EXCEPT ![M].v = "ok1"]] : r \in EchoRounds(g)}
Pool(g, by) == Honests(g, by) \cup Forged(g, by) \cup OddPack(g, by) \cup (IF by = M THEN Devious(g) ELSE {})
Entries(g, by) == {En(by, s, r, k, OkOf(s)) : s \in Ss, r \in {x \in DOMAIN g.rounds : g.rounds[x].dst[by] # {}}, k \in KS}
                  \cup {[En(by, "S", r, "eb", "ok1") EXCEPT !.g = x] : r \in DOMAIN g.rounds, x \in {"bad", "tamper"}}
                  \cup (IF by = M THEN {En(by, "S", r, "eb", "ok1") : r \in DOMAIN g.rounds} ELSE {})

Transpose(g, o, who, s) ==
    LET sw(p) == IF p.by = M THEN HonPart(g, who, s, p.r, p.k) ELSE HonPart(g, IF p.by = who THEN M ELSE p.by, s, p.r, p.k)
        ren(w) == IF w = M THEN who ELSE IF w = who THEN M ELSE w
    IN [o EXCEPT !.guilty = who, !.slots = [x \in DOMAIN @ |-> sw(@[x])],
                 !.who = [x \in DOMAIN @ |-> ren(@[x])],
                 !.acc = IF @ = "" THEN "" ELSE ren(@),
                 !.entry = IF @.by = "" THEN @ ELSE En(who, s, @.r, @.k, OkOf(s))]

VARIABLES ti, o, n
vars == <<ti, o, n>>
Init == \E i \in 1..Len(TLCGet(1)) :
          /\ ti = i /\ n = 0
          /\ \/ o = T(i).tpl.obj
             \/ T(i).tpl.obj.t = "prot" /\ o = [T(i).tpl.obj EXCEPT !.e = UnitE]
             \/ \E who \in {"a", "h"}, s \in Ss :
                    /\ T(i).tpl.obj.t = "mism" => T(i).g.rounds[T(i).tpl.obj.entry.r].dst[who] # {}
                    /\ o = Transpose(T(i).g, T(i).tpl.obj, who, s)

Change(o2) == o' = o2 /\ n' = n + 1 /\ UNCHANGED ti
G == T(ti).g
Next == n < K /\
    \/ \E x \in DOMAIN o.slots : \E w \in {o.guilty, M} \cup (IF x \in OthSlots(o) THEN {o.who[x]} ELSE {}) :
         \E p \in Pool(G, w) : p # o.slots[x] /\ Change([o EXCEPT !.slots = [@ EXCEPT ![x] = p]])
    \/ o.t = "prot" /\ \E x \in DOMAIN o.slots : Change([o EXCEPT !.slots = [y \in DOMAIN @ \ {x} |-> @[y]],
                                                        !.keys = [y \in DOMAIN @ \ {x} |-> @[y]], !.who = [y \in DOMAIN @ \ {x} |-> @[y]]])
    \/ \E x \in DOMAIN o.keys : \E r \in DOMAIN G.rounds \ {o.keys[x]} : Change([o EXCEPT !.keys = [@ EXCEPT ![x] = r]])
    \/ \E x \in DOMAIN o.who : \E w \in N3 \ {o.who[x]} : Change([o EXCEPT !.who = [@ EXCEPT ![x] = w]])
    \/ \E w \in N3 \ {o.guilty} : Change([o EXCEPT !.guilty = w])
    \/ o.acc # "" /\ \E w \in N3 \ {o.acc} : Change([o EXCEPT !.acc = w])
    \/ o.t = "prot" /\ \E e \in DOMAIN G.errs \ {o.e} : Change([o EXCEPT !.e = e])
    \/ o.t = "mism" /\ \E e \in Entries(G, o.guilty) \cup Entries(G, M) : Change([o EXCEPT !.entry = e])
Spec == Init /\ [][Next]_vars
View == <<ti, o>>

(********************************* checks **********************************)
\* C07
NotFramed == Verifies(G, o) => o.guilty = M
\* C06
Genuine == o = T(ti).tpl.obj => Verifies(G, o)
Emit == LET v == Verifies(G, o) IN
        PrintT(ToJson([t |-> ti, o |-> o, v |-> v, genuine |-> (o = T(ti).tpl.obj),
                       sees |-> IF v /\ o.t = "prot" THEN Sees(G, o) ELSE [this |-> E0, prev |-> E0, echos |-> E0]]))
=============================================================================
