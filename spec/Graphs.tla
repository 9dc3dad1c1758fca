-------------------------------- MODULE Graphs --------------------------------
(***************************************************************************)
(* The protocols (round graphs, message parts, topologies) over which the  *)
(* session semantics is explored, and the messages offered to the party    *)
(* under test: the honest ones, and all kinds of deviations from them.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

E0 == << >>
Nodes3 == {"a", "b", "c"}
Nodes4 == {"a", "b", "c", "d"}

(******************************* rounds ************************************)
\* par/sib/chi: declared graph; k: the parts ({"eb","nb","dm"}); nx: next round for everyone
Rd(N, par, sib, chi, k, nx) ==
    [ parents |-> par, siblings |-> sib, children |-> chi, res |-> (nx = "RESULT"),
      eb |-> "eb" \in k, nb |-> "nb" \in k, dm |-> "dm" \in k,
      dst |-> [n \in N |-> N \ {n}], exp |-> [n \in N |-> N \ {n}],
      part |-> [n \in N |-> "D"], tgt |-> [n \in N |-> {}],
      next |-> [n \in N |-> nx] ]
Talk(q, dst, exp) == [q EXCEPT !.dst = dst, !.exp = exp]
Part(q, part, tgt) == [q EXCEPT !.part = part, !.tgt = tgt]
Going(q, nx, res) == [q EXCEPT !.next = nx, !.res = res]

Err(this, prev, echos) == [this |-> this, prev |-> prev, echos |-> echos]
Stage(N, entry, rounds, errs) == [nodes |-> N, entry |-> entry, rounds |-> rounds, errs |-> errs]

(***************************** composition *********************************)
\* The graph executed by a chain of stages: stage i's rounds that may produce a result
\* lead to the entry round of stage i+1.
Compose(stages) ==
    LET n == Len(stages)
        last(i) == i = n
        lift(i, r) ==
            LET q == stages[i].rounds[r]
                j == IF ~last(i) /\ q.res THEN stages[i+1].entry ELSE ""
            IN [ parents |-> q.parents, siblings |-> q.siblings,
                 children |-> IF j = "" THEN q.children ELSE q.children \cup {j},
                 eb |-> q.eb, nb |-> q.nb, dm |-> q.dm, dst |-> q.dst, exp |-> q.exp,
                 part |-> q.part, tgt |-> q.tgt, quiet |-> "quiet" \in DOMAIN q /\ q.quiet,
                 next |-> [m \in stages[i].nodes |->
                            IF q.next[m] = "RESULT" /\ ~last(i) THEN stages[i+1].entry ELSE q.next[m]],
                 join |-> j ]
        M(i) == IF i > n THEN E0 ELSE [r \in DOMAIN stages[i].rounds |-> lift(i, r)]
        X(i) == IF i > n THEN E0 ELSE stages[i].errs
    IN [ nodes |-> stages[1].nodes, entry |-> stages[1].entry, rounds |-> M(1) @@ M(2) @@ M(3), errs |-> X(1) @@ X(2) @@ X(3) ]

(****************************** protocols **********************************)
\* Linear, echo broadcast first, then a direct message and a normal broadcast
ErrsL1 == ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {}))
          @@ ("mpn" :> Err({"nb"}, E0, {}))
          @@ ("mpf" :> Err({"nb", "dm"}, ("A1" :> {"eb", "dm"}), {"A1"}))
          @@ ("mpg" :> Err({"dm"}, ("A1" :> {"nb"}), {}))
          @@ ("mph" :> Err({"nb"}, E0, {"A1"}))
          @@ ("mpi" :> Err({"dm"}, ("A1" :> {"dm"}), {}))
          @@ ("mpj" :> Err({"nb"}, ("A1" :> {"eb"}), {}))
GL1 == << Stage(Nodes3, "A1",
            ("A1" :> Rd(Nodes3, {}, {}, {"A2"}, {"eb", "nb", "dm"}, "A2")) @@
            ("A2" :> Rd(Nodes3, {"A1"}, {}, {}, {"nb", "dm"}, "RESULT")), ErrsL1) >>

\* Three rounds: no echo, echo, echo
ErrsL2 == ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {})) @@ ("mpn" :> Err({"nb"}, E0, {}))
          @@ ("mpf" :> Err({"eb"}, ("A1" :> {"nb"}) @@ ("A2" :> {"dm", "eb"}), {"A2"}))
          @@ ("mpi" :> Err({"eb"}, ("A2" :> {"dm"}), {}))
          @@ ("mpj" :> Err({"eb"}, ("A1" :> {"nb"}) @@ ("A2" :> {"dm"}), {"A2"}))
GL2 == << Stage(Nodes3, "A1",
            ("A1" :> Rd(Nodes3, {}, {}, {"A2"}, {"nb"}, "A2")) @@
            ("A2" :> Rd(Nodes3, {"A1"}, {}, {"A3"}, {"eb", "dm"}, "A3")) @@
            ("A3" :> Rd(Nodes3, {"A2"}, {}, {}, {"eb"}, "RESULT")), ErrsL2) >>

\* One round only, with an echo
GL3 == << Stage(Nodes3, "A1", "A1" :> Rd(Nodes3, {}, {}, {}, {"eb", "dm"}, "RESULT"),
            ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {}))) >>

\* One round with everyone's echo among four parties
GL4 == << Stage(Nodes4, "A1", "A1" :> Rd(Nodes4, {}, {}, {}, {"eb"}, "RESULT"), ("mpe" :> Err({"eb"}, E0, {}))) >>

\* Partial echo: a and b send, c only listens (and echoes)
GP1 == LET q == Talk(Rd(Nodes3, {}, {}, {"A2"}, {"eb", "nb"}, "A2"),
                     ("a" :> {"b","c"}) @@ ("b" :> {"a","c"}) @@ ("c" :> {}),
                     ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {"a","b"}))
       IN << Stage(Nodes3, "A1",
              ("A1" :> Part(q, ("a" :> "D") @@ ("b" :> "D") @@ ("c" :> "R"), ("a" :> {}) @@ ("b" :> {}) @@ ("c" :> {"a","b"}))) @@
              ("A2" :> Rd(Nodes3, {"A1"}, {}, {}, {"dm"}, "RESULT")),
              ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {}))
              @@ ("mpf" :> Err({"dm"}, ("A1" :> {"nb", "eb"}), {"A1"})) @@ ("mph" :> Err({"dm"}, E0, {"A1"}))) >>

\* a broadcasts and does not take part in the echo round, b and c compare notes; a may be two rounds ahead
GP2 == LET q == Talk(Rd(Nodes3, {}, {}, {"A2"}, {"eb", "nb"}, "A2"),
                     ("a" :> {"b","c"}) @@ ("b" :> {}) @@ ("c" :> {}),
                     ("a" :> {}) @@ ("b" :> {"a"}) @@ ("c" :> {"a"}))
       IN << Stage(Nodes3, "A1",
              ("A1" :> Part(q, ("a" :> "S") @@ ("b" :> "R") @@ ("c" :> "R"), ("a" :> {}) @@ ("b" :> {"c"}) @@ ("c" :> {"b"}))) @@
              ("A2" :> Rd(Nodes3, {"A1"}, {}, {"A3"}, {"nb", "dm"}, "A3")) @@
              ("A3" :> Rd(Nodes3, {"A2"}, {}, {}, {"nb"}, "RESULT")),
              ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {})) @@ ("mpn" :> Err({"nb"}, ("A1" :> {"eb"}), {}))) >>

\* c is silent in the first round, only listens in the second, and takes part in the third
GP3 == LET lis == ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {"a","b"})
       IN << Stage(Nodes3, "A1",
              ("A1" :> Talk(Rd(Nodes3, {}, {}, {"A2"}, {"nb", "dm"}, "A2"), ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}),
                            ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}))) @@
              ("A2" :> Talk(Rd(Nodes3, {"A1"}, {}, {"A3"}, {"nb", "dm"}, "A3"), ("a" :> {"b","c"}) @@ ("b" :> {"a","c"}) @@ ("c" :> {}), lis)) @@
              ("A3" :> Rd(Nodes3, {"A2"}, {}, {}, {"eb", "dm"}, "RESULT")),
              ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpn" :> Err({"nb"}, E0, {}))) >>

\* Branching: some skip the second round, some get the result there
GB1 == LET q1 == Going(Rd(Nodes3, {}, {}, {"A2", "A3"}, {"nb"}, "A2"), ("a" :> "A2") @@ ("b" :> "A2") @@ ("c" :> "A3"), FALSE)
           q2 == Talk(Rd(Nodes3, {"A1"}, {}, {"A3"}, {"eb", "dm"}, "A3"),
                      ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}), ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}))
           q3 == Rd(Nodes3, {"A1", "A2"}, {}, {}, {"dm"}, "RESULT")
       IN << Stage(Nodes3, "A1", ("A1" :> q1) @@ ("A2" :> q2) @@ ("A3" :> q3),
              ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpn" :> Err({"nb"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {}))) >>

\* Siblings: A2 and A3 at the same time, joined in A4; round numbers not in order
GB2 == LET q1 == Going(Rd(Nodes3, {}, {}, {"A9", "A3"}, {"eb"}, "A9"), ("a" :> "A9") @@ ("b" :> "A9") @@ ("c" :> "A3"), FALSE)
           q2 == Going(Talk(Rd(Nodes3, {"A5"}, {"A3"}, {"A4"}, {"eb", "nb"}, "A4"),
                      ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}), ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {})),
                      ("a" :> "A4") @@ ("b" :> "A4") @@ ("c" :> "A4"), TRUE)
           q3 == Talk(Rd(Nodes3, {"A5"}, {"A9"}, {"A4"}, {"dm"}, "A4"),
                      ("a" :> {}) @@ ("b" :> {}) @@ ("c" :> {"b", "a"}), ("a" :> {}) @@ ("b" :> {}) @@ ("c" :> {}))
           q4 == Rd(Nodes3, {"A9", "A3"}, {}, {}, {"dm", "nb"}, "RESULT")
       IN << Stage(Nodes3, "A5", ("A5" :> q1) @@ ("A9" :> q2) @@ ("A3" :> q3) @@ ("A4" :> q4),
              ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpn" :> Err({"nb"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {}))) >>

\* Siblings that both end the protocol
GB3 == LET q1 == Going(Rd(Nodes3, {}, {}, {"A9", "A3"}, {"eb"}, "A9"), ("a" :> "A9") @@ ("b" :> "A9") @@ ("c" :> "A3"), FALSE)
           q2 == Talk(Rd(Nodes3, {"A5"}, {"A3"}, {}, {"eb", "nb"}, "RESULT"),
                      ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}), ("a" :> {"b"}) @@ ("b" :> {"a"}) @@ ("c" :> {}))
           q3 == Talk(Rd(Nodes3, {"A5"}, {"A9"}, {}, {"dm"}, "RESULT"),
                      ("a" :> {}) @@ ("b" :> {}) @@ ("c" :> {"b", "a"}), ("a" :> {}) @@ ("b" :> {}) @@ ("c" :> {}))
       IN << Stage(Nodes3, "A5", ("A5" :> q1) @@ ("A9" :> q2) @@ ("A3" :> q3),
              ("mpd" :> Err({"dm"}, E0, {})) @@ ("mpn" :> Err({"nb"}, E0, {})) @@ ("mpe" :> Err({"eb"}, E0, {}))) >>

\* A protocol that goes where it did not declare: from A1 to A3
GX1 == << Stage(Nodes3, "A1",
            ("A1" :> Rd(Nodes3, {}, {}, {"A2"}, {"nb"}, "A3")) @@
            ("A2" :> Rd(Nodes3, {"A1"}, {}, {"A3"}, {"nb"}, "A3")) @@
            ("A3" :> Rd(Nodes3, {"A2"}, {}, {}, {"nb"}, "RESULT")), ("mpn" :> Err({"nb"}, E0, {}))) >>
\* ... with an echo round in between
GX2 == << Stage(Nodes3, "A1",
            ("A1" :> Rd(Nodes3, {}, {}, {"A2"}, {"eb"}, "A3")) @@
            ("A2" :> Rd(Nodes3, {"A1"}, {}, {"A3"}, {"nb"}, "A3")) @@
            ("A3" :> Rd(Nodes3, {"A2"}, {}, {}, {"nb"}, "RESULT")), ("mpe" :> Err({"eb"}, E0, {}))) >>

\* One round, any topology, any parts, any way to take part in echoing
GT(dst, exp, k, part, tgt) ==
    << Stage(Nodes3, "A1",
         "A1" :> Part(Talk(Rd(Nodes3, {}, {}, {}, k, "RESULT"),
                      [n \in Nodes3 |-> IF n = "a" THEN dst ELSE Nodes3 \ {n}],
                      [n \in Nodes3 |-> IF n = "a" THEN exp ELSE Nodes3 \ {n}]),
                 [n \in Nodes3 |-> IF n = "a" THEN part ELSE "D"], [n \in Nodes3 |-> IF n = "a" THEN tgt ELSE {}]),
         E0) >>

\* Chain stages: X as stage letter; an echo round first, optional early result
StE(x, errs) == Stage(Nodes3, x \o "1",
       ((x \o "1") :> Rd(Nodes3, {}, {}, {x \o "2"}, {"eb", "dm"}, x \o "2")) @@
       ((x \o "2") :> Rd(Nodes3, {x \o "1"}, {}, {}, {"nb", "dm"}, "RESULT")), errs)
\* one round with an echo, result right after
StO(x, errs) == Stage(Nodes3, x \o "1", (x \o "1") :> Rd(Nodes3, {}, {}, {}, {"eb", "nb"}, "RESULT"), errs)
\* one round without an echo
StN(x, errs) == Stage(Nodes3, x \o "1", (x \o "1") :> Rd(Nodes3, {}, {}, {}, {"nb", "dm"}, "RESULT"), errs)
\* a: result in the first round; b and c go on to a second one
StB(x, errs) == Stage(Nodes3, x \o "1",
       ((x \o "1") :> Going(Rd(Nodes3, {}, {}, {x \o "2"}, {"eb"}, "RESULT"),
                            ("a" :> "RESULT") @@ ("b" :> x \o "2") @@ ("c" :> x \o "2"), TRUE)) @@
       ((x \o "2") :> Talk(Rd(Nodes3, {x \o "1"}, {}, {}, {"dm"}, "RESULT"),
                      ("a" :> {}) @@ ("b" :> {"c"}) @@ ("c" :> {"b"}), ("a" :> {}) @@ ("b" :> {"c"}) @@ ("c" :> {"b"}))), errs)
\* a: result in the first round; the others have two more rounds
StD(x, errs) == LET bc == ("a" :> {}) @@ ("b" :> {"c"}) @@ ("c" :> {"b"}) IN Stage(Nodes3, x \o "1",
       ((x \o "1") :> Going(Rd(Nodes3, {}, {}, {x \o "2"}, {"nb"}, "RESULT"),
                            ("a" :> "RESULT") @@ ("b" :> x \o "2") @@ ("c" :> x \o "2"), TRUE)) @@
       ((x \o "2") :> Talk(Rd(Nodes3, {x \o "1"}, {}, {x \o "3"}, {"eb"}, x \o "3"), bc, bc)) @@
       ((x \o "3") :> Talk(Rd(Nodes3, {x \o "2"}, {}, {}, {"dm"}, "RESULT"), bc, bc)), errs)
ErrE(x) == ((x \o "d") :> Err({"dm"}, E0, {}))
           @@ ((x \o "i") :> Err({"nb"}, ((x \o "1") :> {"dm"}), {}))
           @@ ((x \o "f") :> Err({"nb", "dm"}, ((x \o "1") :> {"eb", "dm"}), {x \o "1"}))
ErrO(x) == ((x \o "e") :> Err({"eb"}, E0, {})) @@ ((x \o "n") :> Err({"nb", "eb"}, E0, {}))
ErrN(x) == ((x \o "d") :> Err({"dm"}, E0, {})) @@ ((x \o "n") :> Err({"nb", "dm"}, E0, {}))
ErrD(x) == ((x \o "d") :> Err({"dm"}, ((x \o "1") :> {"nb"}) @@ ((x \o "2") :> {"eb"}), {x \o "2"})) @@ ((x \o "n") :> Err({"nb"}, E0, {}))
ErrB(x) == (x \o "d") :> Err({"dm"}, ((x \o "1") :> {"eb"}), {x \o "1"})

GC1 == << StE("A", ErrE("A")), StO("B", ErrO("B")) >>
GC2 == << StB("A", ErrB("A")), StE("B", ErrE("B")) >>
GC3 == << StO("A", ErrO("A")), StN("B", ErrN("B")), StE("C", ErrE("C")) >>
GC4 == << StB("A", ErrB("A")), StB("B", ErrB("B")), StO("C", ErrO("C")) >>
GC6 == << StD("A", ErrD("A")), StN("B", ErrN("B")) >>
GC7 == << StD("A", ErrD("A")), StD("B", ErrD("B")), StN("C", ErrN("C")) >>
GC5 == << StN("A", ErrN("A")), StB("B", ErrB("B")), StN("C", ErrN("C")) >>

(****************************** messages ***********************************)
\* All is relative to a composed graph g and the party under test `me`.
EchoOf(r) == r \o "e"
PK == <<"dm", "eb", "nb">>
HasK(g, r, k) == CASE k = "dm" -> g.rounds[r].dm [] k = "eb" -> g.rounds[r].eb [] OTHER -> g.rounds[r].nb
PartOf(r, p) == [s |-> "S", r |-> r, g |-> "ok", p |-> p]
Msg(f, dm, eb, nb, em) == [from |-> f, dm |-> dm, eb |-> eb, nb |-> nb, em |-> em]
Hon(g, f, r) == Msg(f, PartOf(r, IF g.rounds[r].dm THEN "ok0" ELSE "none"),
                       PartOf(r, IF g.rounds[r].eb THEN "ok0" ELSE "none"),
                       PartOf(r, IF g.rounds[r].nb THEN "ok0" ELSE "none"), E0)
EntryOf(r) == [g |-> "ok", s |-> "S", r |-> r, k |-> "eb", v |-> "ok0"]
Pack(g, f, r) == [a \in g.rounds[r].exp[f] |-> EntryOf(r)]
EchoMsg(g, f, r, em) == Msg(f, PartOf(EchoOf(r), "none"), PartOf(EchoOf(r), "none"), PartOf(EchoOf(r), "echo"), em)
HonE(g, f, r) == EchoMsg(g, f, r, Pack(g, f, r))

SetK(m, k, field, v) ==
    CASE k = "dm" -> [m EXCEPT !.dm[field] = v] [] k = "eb" -> [m EXCEPT !.eb[field] = v] [] OTHER -> [m EXCEPT !.nb[field] = v]
SetAll(m, field, v) == SetK(SetK(SetK(m, "dm", field, v), "eb", field, v), "nb", field, v)
GetK(m, k) == CASE k = "dm" -> m.dm [] k = "eb" -> m.eb [] OTHER -> m.nb
KS == {"dm", "eb", "nb"}
Forgeries == {"bad", "undes", "other", "kind", "sess", "round", "tamper"}

\* another round to claim to be from
OtherRound(g, r) == CHOOSE x \in (DOMAIN g.rounds \cup {EchoOf(r)}) \ {r} : x = EchoOf(r)

\* Deviations in the metadata and signatures of any message
MetaDevs(g, m) ==
    LET r == m.dm.r
        far == IF \E x \in DOMAIN g.rounds : r = x THEN EchoOf(r) ELSE CHOOSE x \in DOMAIN g.rounds : EchoOf(x) = r
    IN {SetAll(m, "s", "X")} \cup {SetK(m, k, "s", "X") : k \in KS} \cup {SetK(m, k, "r", far) : k \in KS}
\* rounds that do not exist, are in the past, are an echo of a round without echoes, or belong to another stage
RoundDevs(g, m, rs) == {SetAll(m, "r", r) : r \in rs \ {m.dm.r}}
SigDevs(m, gs) == {SetK(m, k, "g", x) : k \in KS, x \in gs}

\* Deviations in the payloads of a main round message
PayDevs(g, f, r) ==
    LET h == Hon(g, f, r) IN
    UNION { IF HasK(g, r, k) THEN {SetK(h, k, "p", p) : p \in {"garb", "none"}} ELSE {SetK(h, k, "p", "ok0")} : k \in KS }
UpDevs(g, f, r) == LET h == Hon(g, f, r) IN {SetK(h, k, "p", "up0") : k \in {x \in KS : HasK(g, r, x)}}
\* protocol errors whose own part carries the error code; only those that make sense in this round
MpDevs(g, f, r) ==
    LET h == Hon(g, f, r)
        fits(e) == LET q == g.errs[e] IN
            /\ \A k \in q.this : HasK(g, r, k)
            /\ \A x \in DOMAIN q.prev \cup q.echos : x \in DOMAIN g.rounds => g.rounds[x].dst[f] # {}
            /\ \A x \in DOMAIN q.prev : x # r /\ x \in DOMAIN g.rounds /\ SubSeq(x, 1, 1) = SubSeq(r, 1, 1)
            /\ \A x \in q.echos : x # r /\ SubSeq(x, 1, 1) = SubSeq(r, 1, 1)
            /\ \A x \in {y \in DOMAIN g.errs : y = e} : SubSeq(r, 1, 1) = "A" \/ SubSeq(x, 1, 1) = SubSeq(r, 1, 1)
            /\ SubSeq(r, 1, 1) = "A" => SubSeq(e, 1, 1) \in {"m", "A"}
        carrier(e) == CHOOSE k \in g.errs[e].this : k = "nb" \/ "nb" \notin g.errs[e].this
    IN {SetK(h, carrier(e), "p", e) : e \in {x \in DOMAIN g.errs : fits(x)}}
\* other contents, all fine on their own (equivocation if the part is an echo broadcast)
AltDevs(g, f, r) == LET h == Hon(g, f, r) IN {SetK(h, k, "p", "ok1") : k \in {x \in KS : HasK(g, r, x)}}

\* Deviations in an echo round message
EchoPayDevs(g, f, r) ==
    LET h == HonE(g, f, r) IN {SetK(h, "nb", "p", p) : p \in {"garb", "none"}} \cup {SetK(h, k, "p", "ok0") : k \in {"dm", "eb"}}
PackDevs(g, me, f, r) ==
    LET p == Pack(g, f, r)
        D == DOMAIN p
        drop == {[a \in D \ {x} |-> p[a]] : x \in D}
        add == {p @@ (x :> EntryOf(r)) : x \in (g.nodes \cup {"x"}) \ D}
        swap == {[a \in D \ {y} |-> p[a]] @@ (x :> EntryOf(r)) : x \in (g.nodes \cup {"x"}) \ D, y \in D}
        ent(x, e) == [p EXCEPT ![x] = e]
        forged == {ent(x, [p[x] EXCEPT !.g = s]) : x \in D, s \in {"bad", "undes", "other", "sess", "round"}}
        meta == {ent(x, [p[x] EXCEPT !.s = "X"]) : x \in D} \cup {ent(x, [p[x] EXCEPT !.r = SubSeq(r, 1, 1) \o "7"]) : x \in D}
                \cup {ent(x, [p[x] EXCEPT !.k = k]) : x \in D, k \in {"nb", "dm"}}
        eq == {ent(x, [p[x] EXCEPT !.v = "ok1"]) : x \in D \ {me}}
    IN {EchoMsg(g, f, r, q) : q \in drop \cup add \cup swap \cup forged \cup meta \cup eq}
EqDevs(g, me, f, r) ==
    LET p == Pack(g, f, r) IN {EchoMsg(g, f, r, [p EXCEPT ![x].v = "ok1"]) : x \in (DOMAIN p) \ {me}}
\* several faults in one pack: what gets reported is not specified, but it is one of them
PackDevs2(g, me, f, r) ==
    LET p == Pack(g, f, r) D == DOMAIN p IN
    {EchoMsg(g, f, r, [a \in D \ {y} |-> IF a = x THEN [p[a] EXCEPT !.g = "bad"] ELSE p[a]]) : x \in D, y \in D}
    \cup {EchoMsg(g, f, r, [[p EXCEPT ![x].v = "ok1"] EXCEPT ![y].g = "bad"]) : x \in D \ {me}, y \in D}

\* A menu is a sequence of [m, h]: message and whether it is an honest one
Menu(hon, dev) == SetToSeq({[m |-> x, h |-> TRUE] : x \in hon} \cup {[m |-> x, h |-> FALSE] : x \in dev \ hon})

\* Everything the parties in F send honestly to me, in rounds Rs (and their echo rounds ERs)
HonAll(g, F, Rs, ERs) == {Hon(g, f, r) : f \in F, r \in Rs} \cup {HonE(g, f, r) : f \in F, r \in ERs}
=============================================================================
