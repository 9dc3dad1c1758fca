------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The session semantics of manul, as pure operators over the state of one *)
(* party.  Everything a user of the `Session` API can observe is here: what *)
(* happens to an incoming message, when a round can be finalized, where it *)
(* goes next, what is cached, who is blamed for what, what the report says. *)
(*                                                                         *)
(* G describes the protocol being executed:                                *)
(*   G.nodes   the parties                                                 *)
(*   G.entry   id of the first round                                       *)
(*   G.rounds  [round id -> [                                              *)
(*      parents, siblings, children : sets of round ids (as declared),     *)
(*      eb, nb, dm : BOOLEAN   which message parts the round has           *)
(*      dst  : [node -> set of nodes]  where it sends                      *)
(*      exp  : [node -> set of nodes]  whom it expects messages from       *)
(*      part : [node -> "D"|"S"|"R"]   echo participation                  *)
(*      tgt  : [node -> set of nodes]  echo targets for "R"                *)
(*      next : [node -> round id or "RESULT"]   what finalize() returns    *)
(*      join : entry round of the next chained stage, or ""                *)
(*             (if this round may produce the result of a chained stage)]] *)
(*   G.errs    [error name -> [this, prev, echos]]: what a provable        *)
(*             protocol error requires to be stored as evidence            *)
(*                                                                         *)
(* A message part is [s, r, g, p, by]: session, round id, signature        *)
(* ("ok" valid for the claimed sender, "bad", "undes" not decodable),      *)
(* payload code:                                                           *)
(*   "none" absent, "garb" not decodable, "echo" an echo pack,             *)
(*   "ok..." accepted by the protocol, "up..." refused with an unprovable  *)
(*   error, otherwise the name of a provable error (in DOMAIN G.errs).     *)
(* A message is [from, dm, eb, nb, em]; em is the echo pack, a function    *)
(* author -> [g, s, r, k, v].                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT G

Empty == << >>            \* the function with the empty domain
NoPack == Empty

Echo(r) == r \o "e"
Kinds == <<"dm", "eb", "nb">>
KindSet == {"dm", "eb", "nb"}
R(st) == G.rounds[st.main]
Rid(st) == IF st.echo THEN Echo(st.main) ELSE st.main
Has(k, r) == CASE k = "dm" -> G.rounds[r].dm [] k = "eb" -> G.rounds[r].eb [] OTHER -> G.rounds[r].nb

IsOk(p) == Len(p) >= 2 /\ SubSeq(p, 1, 2) = "ok"
IsUp(p) == Len(p) >= 2 /\ SubSeq(p, 1, 2) = "up"
IsMp(p) == p \in DOMAIN G.errs

(*************************** communication *********************************)
HasEcho(me, r) ==
    LET q == G.rounds[r] IN
    CASE q.part[me] = "D" -> q.eb /\ q.dst[me] # {}
      [] q.part[me] = "S" -> FALSE
      [] OTHER            -> TRUE

EchoTargets(me, r) == IF G.rounds[r].part[me] = "R" THEN G.rounds[r].tgt[me] ELSE G.rounds[r].dst[me]

\* The authors whose broadcasts `me` expects to see echoed (before removing the echoing party)
ExpectedEchoes(me, r) ==
    IF G.rounds[r].part[me] = "R" THEN G.rounds[r].exp[me] ELSE G.rounds[r].exp[me] \cup {me}

Destinations(st) == IF st.echo THEN EchoTargets(st.me, st.main) ELSE R(st).dst[st.me]
Expected(st)     == IF st.echo THEN EchoTargets(st.me, st.main) ELSE R(st).exp[st.me]

\* Static transition information, plus what a chain adds at the border of its stages:
\* the parties that came from the same round, but took the other way.
Joined(st)  == st.via # "" /\ G.rounds[st.via].join # "" /\ G.rounds[st.via].join = st.main
Parents(st) == IF Joined(st) THEN R(st).parents \cup {st.via} ELSE R(st).parents
Siblings(st) ==
    IF Joined(st) THEN R(st).siblings \cup (G.rounds[st.via].children \ {st.main})
    ELSE IF st.via # "" /\ G.rounds[st.via].join # "" THEN R(st).siblings \cup {G.rounds[st.via].join}
    ELSE R(st).siblings

\* Rounds other honest parties may be in while this one is in Rid(st)
Simultaneous(st) ==
    (IF st.echo THEN {st.main}
     ELSE Parents(st) \cup (IF HasEcho(st.me, st.main) THEN {Echo(st.main)} ELSE {}))
    \cup Siblings(st) \cup R(st).children

(****************************** the state **********************************)
NodeInit(me) ==
    [ me |-> me, status |-> "run", main |-> G.entry, echo |-> FALSE, via |-> "",
      \* this round:
      still  |-> G.rounds[G.entry].exp[me],   \* expected, nothing processed yet
      proc   |-> {},       \* senders of a message that is (or was) being processed
      flight |-> {},       \* accepted messages whose processing has not finished
      queue  |-> {},       \* cached messages handed back, not processed yet
      acc    |-> {},       \* senders whose message was accepted
      pay    |-> Empty,    \* what the accepted messages of the main round contained
      cached |-> {},       \* messages for simultaneous rounds
      prov |-> Empty, unprov |-> {},          \* errors of this round
      \* previous rounds:
      tprov |-> Empty, tunprov |-> {}, missing |-> Empty,
      parts |-> Empty,     \* [main round -> [sender -> payloads]]
      packs |-> Empty ]    \* [main round -> [sender -> echo pack]]

Banned(st)     == DOMAIN st.prov \cup st.unprov \cup DOMAIN st.tprov \cup st.tunprov
InAccum(st)    == DOMAIN st.prov \cup st.unprov
Put(f, k, v)   == (k :> v) @@ f
PutNew(f, k, v) == IF k \in DOMAIN f THEN f ELSE (k :> v) @@ f

(************************* incoming messages *******************************)
Blame(st, from) == [st EXCEPT !.unprov = @ \cup {from}]

Uniform(m) == m.dm.s = m.eb.s /\ m.dm.s = m.nb.s /\ m.dm.r = m.eb.r /\ m.dm.r = m.nb.r
Authentic(m) == m.dm.g = "ok" /\ m.eb.g = "ok" /\ m.nb.g = "ok"

\* Outcome of `preprocess_message`: [o |-> "P"|"C"|"E", st |-> new state]
Preprocess(st, m) ==
    LET f == m.from
        Err == [o |-> "E", st |-> Blame(st, f)]
        r == m.dm.r
    IN
    IF f \in Banned(st) THEN [o |-> "E", st |-> st]
    ELSE IF ~Uniform(m) \/ m.dm.s # "S" THEN Err
    ELSE IF r = Rid(st) THEN
        IF f \in st.proc \/ f \notin Expected(st) \/ ~Authentic(m) THEN Err
        ELSE [o |-> "P", st |-> [st EXCEPT !.proc = @ \cup {f}, !.flight = @ \cup {m}]]
    ELSE IF r \in Simultaneous(st) THEN
        IF (\E c \in st.cached : c.from = f /\ c.dm.r = r) \/ ~Authentic(m) THEN Err
        ELSE [o |-> "C", st |-> [st EXCEPT !.cached = @ \cup {m}]]
    ELSE Err

\* What a bundle of verified parts may turn out to be; a set, because when there are
\* several faults it is not specified which one gets reported.
\*   [t |-> "ok"], [t |-> "inv", k |-> part], [t |-> "up"], [t |-> "mp", e |-> error],
\*   [t |-> "badecho"], [t |-> "equiv", a |-> author]
StructFaults(st, m) ==
    LET P(k) == CASE k = "dm" -> m.dm.p [] k = "eb" -> m.eb.p [] OTHER -> m.nb.p
        Want(k) == IF st.echo THEN k = "nb" ELSE Has(k, st.main)
        Bad(k) == IF ~Want(k) THEN P(k) # "none"
                  ELSE IF st.echo THEN P(k) # "echo" ELSE P(k) \in {"none", "garb", "echo"}
    IN {[t |-> "inv", k |-> k, e |-> "", a |-> ""] : k \in {x \in KindSet : Bad(x)}}

ProtocolVerdict(m) ==   \* our model protocol looks at dm, then eb, then nb
    LET ps == SelectSeq(<<m.dm.p, m.eb.p, m.nb.p>>, LAMBDA p : IsUp(p) \/ IsMp(p))
    IN IF ps = << >> THEN [t |-> "ok", k |-> "", e |-> "", a |-> ""]
       ELSE IF IsUp(ps[1]) THEN [t |-> "up", k |-> "", e |-> "", a |-> ""]
       ELSE [t |-> "mp", k |-> "", e |-> ps[1], a |-> ""]

EchoVerdicts(st, m) ==
    LET want == ExpectedEchoes(st.me, st.main) \ {m.from}
        got  == DOMAIN m.em
        \* (what a party with extensions itself broadcasts may differ)
        own == IF "own" \in DOMAIN R(st) THEN R(st).own[st.me] ELSE "ok0"
        mine(a) == IF a = st.me THEN own ELSE st.pay[a].eb
        badEntry(a) == LET x == m.em[a] IN x.g # "ok" \/ x.k # "eb" \/ x.s # "S" \/ x.r # st.main
        common == got \cap want
        keyFault == IF got # want THEN {[t |-> "up", k |-> "", e |-> "", a |-> ""]} ELSE {}
        bad == {[t |-> "badecho", k |-> "", e |-> "", a |-> ""] : a \in {x \in common : badEntry(x)}}
        eq  == {[t |-> "equiv", k |-> "", e |-> "", a |-> a] :
                    a \in {x \in common : ~badEntry(x) /\ m.em[x].v # mine(x)}}
        all == keyFault \cup bad \cup eq
    IN IF all = {} THEN {[t |-> "ok", k |-> "", e |-> "", a |-> ""]} ELSE all

Verdicts(st, m) ==
    LET sf == StructFaults(st, m) IN
    IF sf # {} THEN sf
    ELSE IF st.echo THEN EchoVerdicts(st, m)
    ELSE {ProtocolVerdict(m)}

Payloads(m) == [dm |-> m.dm.p, eb |-> m.eb.p, nb |-> m.nb.p]

\* Evidence against a party is filed under that party; the first evidence is kept.
\* An error is represented by what the protocol's own check gets to see when the evidence
\* is verified (nothing for the errors that are not protocol-specific).
Sees(st, m, e) ==
    LET q == G.errs[e]
        pl == Payloads(m)
        pick(p, ks) == [k \in ks |-> p[k]]
        echoed(r) == LET pk == st.packs[r][m.from] IN [a \in DOMAIN pk |-> pk[a].v]
    IN [ e |-> e, r |-> st.main, this |-> pick(pl, q.this),
         prev |-> [r \in DOMAIN q.prev |-> pick(st.parts[r][m.from], q.prev[r])],
         echos |-> [r \in q.echos |-> echoed(r)] ]
NoSees == [e |-> "", r |-> "", this |-> Empty, prev |-> Empty, echos |-> Empty]

File(st, guilty, ev) ==
    IF guilty \in DOMAIN st.tprov THEN st ELSE [st EXCEPT !.prov = PutNew(@, guilty, ev)]

\* `process_message` and `add_processed_message` for message m
AddProcessed(st, m, v) ==
    LET f == m.from
        s1 == [st EXCEPT !.flight = @ \ {m}, !.queue = @ \ {m}, !.still = @ \ {f}]
    IN CASE v.t = "ok" ->
              IF st.echo
              THEN [s1 EXCEPT !.acc = @ \cup {f},
                              !.packs = Put(@, st.main, Put(IF st.main \in DOMAIN @ THEN @[st.main] ELSE Empty, f, m.em))]
              ELSE [s1 EXCEPT !.acc = @ \cup {f}, !.pay = Put(@, f, Payloads(m))]
         [] v.t = "up" -> Blame(s1, f)
         [] v.t = "equiv" -> File(s1, v.a, NoSees)
         [] v.t = "mp" -> File(s1, f, Sees(st, m, v.e))
         [] v.t = "badecho" -> File(s1, f, NoSees)
         [] OTHER -> File(s1, f, NoSees)

(*************************** ending a round ********************************)
InWork(st) == {m.from : m \in st.flight \cup st.queue}
Live(st) == {f \in Expected(st) \ st.acc : f \in st.still /\ (f \in InWork(st) \/ f \notin Banned(st))}

CanFinalize(st) ==
    IF Expected(st) \subseteq st.acc THEN "Y"
    ELSE IF Live(st) # {} THEN "N" ELSE "X"

MergedProv(st) == st.tprov @@ st.prov     \* the older evidence is kept
Archive(st) ==
    [st EXCEPT !.tprov = MergedProv(st), !.tunprov = @ \cup st.unprov,
               !.prov = Empty, !.unprov = {},
               !.missing = IF st.still = {} THEN @ ELSE Put(@, Rid(st), st.still)]

ForRound(a, rid, exp) == {m \in a.cached : m.dm.r = rid /\ m.from \notin (DOMAIN a.tprov \cup a.tunprov) /\ m.from \in exp}

Enter(a, main, echo, keep) ==
    LET b == [a EXCEPT !.main = main, !.echo = echo, !.acc = {}, !.flight = {}]
        q == ForRound(a, Rid(b), Expected(b))
    IN [b EXCEPT !.still = Expected(b), !.queue = q, !.proc = {m.from : m \in q},
                 !.cached = {m \in keep : m.dm.r # Rid(b)}]

\* `finalize_round` when CanFinalize is "Y": [next |-> ..., st |-> ...]
Finalize(st) ==
    LET a == [Archive(st) EXCEPT !.parts = IF st.echo THEN @ ELSE Put(@, st.main, st.pay)]
        nx == R(st).next[st.me]
    IN IF ~st.echo /\ HasEcho(st.me, st.main)
       THEN LET b == Enter(a, st.main, TRUE, st.cached) IN [next |-> Rid(b), st |-> b]
       ELSE IF nx = "RESULT" THEN [next |-> nx, st |-> [a EXCEPT !.status = "R", !.flight = {}, !.queue = {}, !.cached = {}]]
       ELSE IF nx \notin R(st).children
       THEN [next |-> "LOCAL", st |-> [a EXCEPT !.status = "L", !.flight = {}, !.queue = {}, !.cached = {}]]
       ELSE LET b == Enter([a EXCEPT !.pay = Empty, !.via = st.main], nx, FALSE, st.cached) IN [next |-> nx, st |-> b]

\* The report of `terminate` ("T"), `terminate_due_to_errors` ("N"), or of the finished session ("R")
Report(st, out) ==
    LET a == IF st.status = "run" THEN Archive(st) ELSE st
    IN [out |-> out, prov |-> [g \in DOMAIN a.tprov |-> a.tprov[g]], unprov |-> a.tunprov, missing |-> a.missing]

(*************************** honest behaviour ******************************)
\* What an honest party in state st sends to d in its current round
HonestPart(st, k, p) == [s |-> "S", r |-> Rid(st), g |-> "ok", p |-> p]
HonestEntry(st, a) == [g |-> "ok", s |-> "S", r |-> st.main, k |-> "eb", v |-> st.pay[a].eb]
HonestMsg(st) ==
    LET code(k) == IF Has(k, st.main) THEN "ok0" ELSE "none"
        none(k) == HonestPart(st, k, "none")
    IN IF st.echo
       THEN [from |-> st.me, dm |-> none("dm"), eb |-> none("eb"), nb |-> HonestPart(st, "nb", "echo"),
             em |-> [a \in {x \in DOMAIN st.pay : st.pay[x].eb # "none"} |-> HonestEntry(st, a)]]
       ELSE [from |-> st.me, dm |-> HonestPart(st, "dm", code("dm")), eb |-> HonestPart(st, "eb", code("eb")),
             nb |-> HonestPart(st, "nb", code("nb")), em |-> NoPack]
=============================================================================
