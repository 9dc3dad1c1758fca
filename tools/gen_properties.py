#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S="manul/src/session/"; P="manul/src/protocol/"; D="manul/src/dev/"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
p("C01","Echo broadcast agreement",
 "Whenever two honest parties that exchange echoes with each other both get past a round with an echo broadcast, their protocol code was given the same echo broadcast from every sender whose broadcast both were expecting, whatever the senders and the other echoing parties did. If a sender signed different broadcasts for them, the party that learns of it does not finalize the round and reports the equivocating sender, with verifiable evidence.",
 ["histories","inputs","schedules"],"all behaviours of up to n-2 malicious parties (equivocation, missing/extra/forged/foreign echoes), all delivery orders",
 "tests run one equivocation scenario with one delivery order; agreement is a statement about every combination of malicious messages and schedules",
 [S+"echo.rs",S+"session.rs"],[("EchoRound::receive_message compares every echoed hash with what was received",S+"echo.rs"),("finalize_round interposes the echo round",S+"session.rs")],
 [("EchoRoundInfo","who echoes to whom, whose echoes are expected",S+"session.rs")],["Round::finalize payloads","SessionReport.provable_errors"])
p("C02","Only authentic, current, uniform messages reach the protocol",
 "Protocol code is only ever given message parts that the claimed sender signed for this session, for exactly the round being executed and for that kind of part, with the content unchanged, and all parts of one bundle agree on session and round. A bundle with a foreign session, a foreign round, mixed parts, a wrong, missing or unreadable signature, or a sender the round does not expect, is rejected, and the error is recorded against its sender. (A message cached ahead of time whose sender turns out not to be expected in that round is dropped when the round begins.)",
 ["inputs","histories"],"every combination of session id, round id, signature validity and part origin over the three parts of a bundle, in every state of the receiving session",
 "tests use honest transport; the test signature scheme does not even bind the digest",
 [S+"session.rs",S+"message.rs",P+"message.rs"],[("preprocess_message",S+"session.rs"),("unify_metadata/into_verified",S+"message.rs"),("domain-separated part hash",P+"message.rs")],
 [],["PreprocessOutcome","Round::receive_message calls"])
p("C03","At most one message per sender per round",
 "In each round a session hands the protocol at most one message per sender, the first valid one, and never replaces or merges it, whether the first one was cached ahead of time, is still being processed, or has been processed. A second message from the same sender for the same round is rejected and recorded as an error against that sender.",
 ["histories","schedules"],"all positions of the duplicate relative to caching, processing, and round transitions",
 "no test sends duplicates; the interesting positions (duplicate of a cached message after the transition, of one still in processing) need specific interleavings",
 [S+"session.rs"],[("processing / cached bookkeeping in RoundAccumulator",S+"session.rs")],
 [("processing","senders whose message is in flight or done",S+"session.rs"),("cached","messages for simultaneous rounds",S+"session.rs")],["PreprocessOutcome","Round::receive_message calls"])
p("C04","Early messages are kept and delivered exactly once",
 "A valid message for a round that another honest party may legitimately already be in (one of the simultaneous rounds: the echo round, or a declared parent, sibling or child of the current round) is cached and, once the session reaches that round (also across an intermediate echo round), is delivered to the protocol exactly once. Consequently the result of an all-honest execution does not depend on message delivery order, and no order makes it stall or report errors.",
 ["schedules"],"all delivery orders of all messages between honest parties, including partial echo participation and branching protocols",
 "tests use a handful of random orders on simple protocols; early messages across an echo round only appear with partial echo participation and particular orders",
 [S+"session.rs",P+"round_id.rs"],[("simultaneous_rounds",P+"round_id.rs"),("cache_message / finalize_round returning cached messages",S+"session.rs")],
 [("cached","messages for simultaneous rounds",S+"session.rs")],["RoundOutcome::AnotherRound.cached_messages","Round::finalize payloads"])
p("C05","Honest parties are never blamed",
 "As long as each message is delivered at most once, no honest party ever appears in another honest party's provable or unprovable errors, whatever the malicious parties do and in whatever order messages arrive. This includes honest parties that forward (echo) a malicious party's messages.",
 ["schedules","fault_sequences","histories"],"all malicious behaviours of the others, all interleavings",
 "needs adversarial combinations (echoing a foreign part as the echo, an honest echoer reporting an equivocation) which no test samples",
 [S+"session.rs",S+"echo.rs",P+"round_id.rs"],[("error registration in add_processed_message/preprocess_message",S+"session.rs"),("echo comparison",S+"echo.rs")],
 [],["SessionReport.provable_errors","SessionReport.unprovable_errors"])
p("C06","Reported evidence verifies and names its guilty party",
 "Every piece of evidence in a session report is listed under the party it accuses, and verification by any third party holding the shared data succeeds, also after the evidence has been serialized and deserialized in the wire format.",
 ["inputs","histories"],"all kinds of provable misbehaviour in all rounds, including echo rounds and chained protocols",
 "tests check a few evidence kinds, not across all rounds and required-message combinations, and not when accuser and accused differ",
 [S+"evidence.rs",S+"session.rs",S+"echo.rs"],[("Evidence constructors and verify",S+"evidence.rs"),("register_provable_error",S+"session.rs")],
 [],["SessionReport.provable_errors","Evidence::verify","Evidence::guilty_party"])
p("C07","Evidence cannot frame an honest party",
 "No evidence object assembled from messages an honest party really signed (in any round, session and part kind) together with arbitrary data made by others verifies against that honest party. In particular, re-targeting, truncating, mixing or re-labelling the parts of genuine evidence makes verification fail. Verification of whatever object returns a verdict and does not panic.",
 ["inputs"],"all evidence objects composed from honest signed parts and adversary material",
 "tests only verify genuine evidence; unforgeability is a statement about all other objects",
 [S+"evidence.rs",S+"echo.rs",S+"message.rs",P+"round_info.rs"],[("signature, metadata and part-kind checks in the verify functions",S+"evidence.rs"),("InvalidEchoError/MismatchedBroadcastsError::verify_evidence",S+"echo.rs")],
 [],["Evidence::verify"])
p("C08","Misbehaviour is attributed precisely",
 "Every malformed, unexpected or protocol-violating message is recorded against exactly the responsible party and in the right class: provable with evidence (undecodable or unexpectedly present/absent part, protocol-level provable error, bad entry in an echo pack, equivocation) or unprovable (bad signature or metadata, missing or extra echo entries, protocol-level unprovable error). Nobody else is recorded, and the offending message contributes nothing to the round.",
 ["inputs","histories"],"all fault classes for each part kind in each kind of round",
 "tests cover some fault classes in one round each",
 [S+"session.rs",S+"echo.rs",P+"dyn_round.rs"],[("RoundWrapper::receive_message",P+"dyn_round.rs"),("add_processed_message",S+"session.rs")],
 [],["SessionReport.provable_errors","SessionReport.unprovable_errors"])
p("C09","Rounds finalize exactly with the expected messages",
 "A round is reported finalizable exactly when a valid message from every expected sender has been accepted, and finalization hands the protocol precisely one payload per expected sender, the one its message produced, and precisely the artifacts of the messages created in that round. The intermediate echo round neither loses nor changes them.",
 ["schedules","histories"],"all orders of accepting messages and adding artifacts, with and without echo rounds, and all send/receive topologies",
 "tests look only at final results of simple protocols in which all parties communicate",
 [S+"session.rs",S+"echo.rs",P+"dyn_round.rs"],[("can_finalize, payloads/artifacts",S+"session.rs"),("EchoRound carries payloads and artifacts",S+"echo.rs")],
 [("payloads","per-sender results of receive_message",S+"session.rs")],["Session::can_finalize","Round::finalize arguments"])
p("C10","A banned party stays banned",
 "Once an error has been recorded against a party, every message from it that arrives later, or that was cached from it earlier, is ignored for the rest of the session: it never reaches the protocol, and it neither adds nor changes recorded errors.",
 ["histories"],"all kinds of first error and all later messages, in the same round, the following echo round and later rounds",
 "tests never continue with messages from a party after its first error",
 [S+"session.rs",S+"transcript.rs"],[("is_banned checks in preprocess_message and finalize_round",S+"session.rs"),("Transcript::is_banned",S+"transcript.rs")],
 [],["PreprocessOutcome","RoundOutcome::AnotherRound.cached_messages","SessionReport"])
p("C11","Remote input cannot crash or abort a session",
 "No message or sequence of messages from other parties, however malformed, duplicated, mistimed or unexpected, makes a session panic or return a local error. Its only effects are on the errors recorded against remote parties and on whether the round can be finalized.",
 ["inputs","histories"],"all message sequences from remote parties in every session state",
 "tests never send messages from unexpected parties, duplicates or multiple faults per party",
 [S+"session.rs",S+"transcript.rs",S+"echo.rs"],[("every LocalError path in preprocess/add_processed/finalize/terminate",S+"session.rs"),("Transcript::update",S+"transcript.rs")],
 [],["Result of every Session method"])
p("C12","A dead round is recognised, a live one is not given up",
 "A session reports that a round can never be finalized exactly when some expected message has not been accepted and none of the missing ones can be accepted any more, because their senders are banned (in this or an earlier round) or their messages have been refused. While the message of an expected and not banned sender may still arrive, or is being processed, it reports that the round cannot be finalized yet.",
 ["histories","schedules"],"all sequences of accepted and refused messages over all rounds, including parties banned in an earlier round",
 "tests never look at the answer after errors; a wrong answer is a hang or a premature stop",
 [S+"session.rs"],[("can_finalize",S+"session.rs")],[("still_have_not_sent_messages","expected senders not heard from",S+"session.rs")],["Session::can_finalize"])
p("C13","Session reports tell what happened",
 "A session report states the true outcome (result, terminated by the user, or not enough messages), contains every error recorded in any round of the session and no other, and lists for each round exactly the expected parties whose message had not been processed when that round ended.",
 ["histories"],"all histories ending by result, user termination or errors, with errors spread over several rounds",
 "tests check the result of clean runs and of single faults only",
 [S+"session.rs",S+"transcript.rs"],[("terminate, terminate_due_to_errors, finalize_round",S+"session.rs"),("Transcript::update, SessionReport::new",S+"transcript.rs")],
 [("transcript","errors and messages of past rounds",S+"transcript.rs")],["SessionReport"])
p("C14","Execution follows the declared round graph",
 "A session executes the protocol's rounds along declared transitions only, with an echo round exactly after those rounds where this party takes part in echoing, and refuses a transition the protocol did not declare. In every round, messages for the declared parents, siblings and children (and the echo round) are accepted as simultaneous, and messages for any other round are not.",
 ["programs","histories"],"protocol graphs with branches, optional results, per-party echo participation; every round id offered in every round",
 "tests use linear protocols, and one with partial echo participation",
 [S+"session.rs",P+"round_id.rs",S+"echo.rs"],[("simultaneous_rounds, echo()",P+"round_id.rs"),("echo participation in new_for_next_round; child check in finalize_round",S+"session.rs")],
 [],["Session::round_id","PreprocessOutcome"])
p("C15","A chained protocol runs its stages in sequence",
 "Executing a chain of protocols (also nested) behaves like executing the first protocol and then the second, with the second one's inputs derived from the first one's result; every round of every stage has its own identity, so messages of one stage are never taken for those of another, and no delivery order across the stage boundary makes honest parties fail. The session and the first protocol's rounds see the same parties, payloads and artifacts as when run alone.",
 ["programs","schedules"],"chains of two or three stages nested either way, stages with and without echo rounds and branches, all delivery orders",
 "tests run one two-stage chain with honest parties; parties being in different stages simultaneously is a matter of schedule",
 ["manul/src/combinators/chain.rs",P+"round_id.rs"],[("ChainedRound",  "manul/src/combinators/chain.rs"),("group_under/split_group",P+"round_id.rs")],
 [],["Session::round_id","SessionOutcome","Round::finalize arguments"])
p("C16","Evidence works through chains",
 "Misbehaviour in any stage of a chained protocol (also nested) produces evidence that verifies under the chained protocol with that stage's shared data and that stage's view of rounds and earlier messages. Evidence re-labelled to a round of another stage does not verify.",
 ["programs","inputs"],"provable errors of every kind in each stage of two- and three-stage chains nested either way",
 "tests verify evidence for one error in a two-stage chain",
 ["manul/src/combinators/chain.rs",S+"evidence.rs",P+"evidence.rs"],[("RoundInfo1/RoundInfo2, ungroup","manul/src/combinators/chain.rs"),("RequiredMessages::group_under",P+"evidence.rs")],
 [],["Evidence::verify"])
p("C17","The async runners implement the session semantics",
 "Under every task schedule, both async runners only make steps the session semantics allows: they send exactly one message to each destination of each round they enter, apply every received and cached message at most once, finalize only when the round is finalizable, and return the report of the run they performed. On the same inputs the sequential and the parallel runner give equivalent reports.",
 ["schedules","inputs"],"all interleavings of message creation, sending, receiving, processing and finalization tasks",
 "tests run a few schedules of honest parties",
 [S+"tokio.rs"],[("run_session, par_run_session",S+"tokio.rs")],[],["MessageOut stream","SessionReport"])
p("C18","The async runners never hang",
 "An async runner returns once the protocol finishes, once the round cannot be finalized any more, or once it is cancelled, whatever the number of destinations and pending messages; cancellation is reported as termination by the user and a dead round as not enough messages. It does not block while something remains to be sent or processed, provided that the channel it sends to is being drained.",
 ["schedules","configurations"],"all points at which the round can be finalized, die or be cancelled, relative to message creation and processing tasks; any number of parties",
 "hangs need more destinations than the internal channel capacity or a particular cancellation point",
 [S+"tokio.rs"],[("bounded channels, task joining and draining",S+"tokio.rs"),("cancellation",S+"tokio.rs")],[],["run_session/par_run_session return value"])
p("C19","Outgoing messages are complete, consistent and valid",
 "In each round a session offers one message for each declared destination and nobody else; the broadcast parts are the same for all destinations, the direct part is the one the protocol made for that destination, parts the round does not have are absent, and every honest recipient in the same session and round accepts the message.",
 ["configurations","programs"],"all combinations of message parts and all send/receive topologies of a round",
 "tests use three parties talking to everyone, and compare only the final results",
 [S+"session.rs",S+"message.rs",P+"dyn_round.rs"],[("new_for_next_round, make_message",S+"session.rs")],[],["Session::message_destinations","Session::make_message"])
p("C20","Evidence checks see exactly the signed messages",
 "When evidence of a protocol-level error is verified, the protocol's check is given exactly what it asked to be stored: those parts of the offending message, those parts of the guilty party's messages of earlier rounds, and the echo broadcasts that the guilty party echoed, each bit for bit as signed, with the session's shared randomness, the round and the guilty party. Anything not requested is absent.",
 ["inputs","programs"],"all combinations of required parts, earlier rounds and combined echoes",
 "tests use a few combinations of required messages",
 [S+"evidence.rs",P+"evidence.rs",P+"round_info.rs"],[("Evidence::new_provable_error, ProtocolEvidence::verify",S+"evidence.rs"),("EvidenceMessages",P+"evidence.rs")],
 [("transcript","messages of past rounds",S+"transcript.rs")],["ProtocolError::verify_evidence arguments"])
p("C21","Round extensions change only what they override",
 "Running a (not chained) protocol with round extensions (the facility for simulating misbehaviour) changes exactly the overridden behaviour of the extended round type: all other rounds, parties, message parts, payloads, artifacts and transitions are as in the plain protocol, in any round order and for any number of extensions. An extension that overrides nothing is unobservable, to the party itself and to the others.",
 ["programs","inputs"],"extension of each round type, overriding any subset of its methods, and combinations of extensions",
 "tests override one method of one round at a time",
 [D+"extend.rs",D+"misbehave.rs"],[("RoundExtension, ExtendableEntryPoint",D+"extend.rs")],[],["run_sync outcome","Round callbacks"])
p("C22","The development runners complete every run",
 "The synchronous runner delivers every message that is sent, in some order, and returns a report for every party as soon as all of them have finished; it does not panic, fail or hang whatever the number of parties (including a single one), the communication topology among them, or the misbehaviour simulated. The same holds for the asynchronous development runner if all parties are honest. The reports are those of sessions exchanging these messages.",
 ["schedules","configurations","fault_sequences"],"any set of parties, topology and random order; runs with faulty parties",
 "tests use three fully connected parties",
 [D+"run_sync.rs",D+"tokio.rs"],[("run_sync",D+"run_sync.rs"),("run_async, message_dispatcher",D+"tokio.rs")],[],["ExecutionResult"])
p("C23","Serializable maps round-trip and reject duplicates",
 "Deserializing a serialized map gives an equal map in every wire format, and equal maps have equal serializations whatever the order they were built in. An encoding with a repeated key, with an entry that is not a pair, or one that is cut short is rejected, and never silently merged or completed.",
 ["inputs"],"all maps and all encoded entry sequences",
 "tests sample one map and one encoding",
 ["manul/src/utils/serializable_map.rs"],[("MapVisitor","manul/src/utils/serializable_map.rs")],[],["Serialize/Deserialize of SerializableMap"])
p("C24","No randomness is handed out twice",
 "Within an execution, the randomness given to the protocol's methods (creating a round, making messages, finalizing), to round extensions and to the signer never repeats: neither within a session, also when its messages are created in concurrent tasks, nor between the parties run by a development runner. Different generators supplied by the caller lead to different randomness.",
 ["programs","schedules"],"all calls of protocol code and signatures in sequential, asynchronous and parallel executions",
 "tests do not look at the randomness; reuse has no effect on the results of toy protocols",
 [S+"tokio.rs",S+"session.rs",P+"rng.rs",D+"tokio.rs",D+"run_sync.rs"],[("task_rng in par_run_session",S+"tokio.rs"),("BoxedRng",P+"rng.rs"),("per-party generators of run_async",D+"tokio.rs")],[],["arguments of Round methods and of the signer"])
p("C25","The helpers for testing misbehaviour judge executions correctly",
 "check_evidence() (and the variants that run the protocol with extensions of one party) succeeds exactly when the modified party's own report has no provable errors and the report of every other party has exactly one, which is against the modified party, has the expected text in its description, and verifies against the given shared data. ExecutionResult::results() returns the results of all parties if all of them have one, and otherwise a description that names exactly those without.",
 ["programs","inputs"],"all executions of the synchronous development runner, all choices of the target, expected texts and shared data",
 "tests use the helpers on executions in which they succeed; a helper that accepts too much makes every test of misbehaviour written with it void without failing any of them",
 [D+"misbehave.rs",D+"run_sync.rs"],[("check_evidence",D+"misbehave.rs"),("check_evidence_with_extensions",D+"misbehave.rs"),("ExecutionResult::results",D+"run_sync.rs")],[],["results of the helpers"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in props:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(props))
