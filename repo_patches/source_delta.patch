From 72d280c2a0558ece6ef646d6cf1f48c8463341e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 01/18] fix: report NotEnoughMessages for dead rounds and
 Terminated for cancellations

---
 manul/src/session/session.rs |  2 +-
 manul/src/session/tokio.rs   | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..d0eb37e 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -461,7 +461,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..83823bf 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
@@ -279,12 +279,11 @@ where
 
         let can_finalize = loop {
             match session.can_finalize(&accum) {
-                CanFinalize::Yes => break true,
                 CanFinalize::NotYet => {}
-                // Due to already registered invalid messages from nodes,
+                // In case of `CanFinalize::Never`, due to already registered invalid messages from nodes,
                 // even if the remaining nodes send correct messages, it won't be enough.
                 // Terminating.
-                CanFinalize::Never => break false,
+                can_finalize => break can_finalize,
             }
 
             tokio::select! {
@@ -332,7 +331,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
-                    break false;
+                    break CanFinalize::NotYet;
                 }
             }
         };
@@ -373,8 +372,11 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-        if !can_finalize {
-            return session_inner.terminate_due_to_errors(accum);
+        match can_finalize {
+            CanFinalize::Yes => {}
+            CanFinalize::Never => return session_inner.terminate_due_to_errors(accum),
+            // The loop was interrupted by the cancellation token
+            CanFinalize::NotYet => return session_inner.terminate(accum),
         }
 
         match session_inner.finalize_round(rng, accum)? {
-- 
2.43.0


From 8f159d25af50a82dd660ab6289663e45878158c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 02/18] fix: file evidence of mismatched broadcasts under the
 guilty party

---
 manul/src/session/session.rs    | 21 ++++++++++++---------
 manul/src/session/transcript.rs |  4 ++++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index d0eb37e..3724efb 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -629,13 +629,10 @@ where
     }
 
     fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
-        }
+        // A party can misbehave in several ways in one round (for example, by sending an invalid message,
+        // and having sent different broadcasts earlier). One evidence is enough, so we keep the first one.
+        self.provable_errors.entry(from.clone()).or_insert(evidence);
+        Ok(())
     }
 
     fn mark_processing(&mut self, message: &VerifiedMessage<SP::Verifier>) -> Result<(), LocalError> {
@@ -739,8 +736,14 @@ where
             }
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
-                let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                let evidence = Evidence::<P, SP>::new_echo_round_error(&from, normal_broadcast, *error)?;
+                // Note that the guilty party may be different from the sender of this message,
+                // and may have evidences registered for it already.
+                let guilty_party = evidence.guilty_party().clone();
+                if transcript.has_evidence(&guilty_party) {
+                    return Ok(());
+                }
+                self.register_provable_error(&guilty_party, evidence)
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
diff --git a/manul/src/session/transcript.rs b/manul/src/session/transcript.rs
index 33f0187..76263f8 100644
--- a/manul/src/session/transcript.rs
+++ b/manul/src/session/transcript.rs
@@ -170,6 +170,10 @@ where
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
 
+    pub fn has_evidence(&self, from: &SP::Verifier) -> bool {
+        self.provable_errors.contains_key(from)
+    }
+
     pub fn echo_broadcasts(
         &self,
         round_id: &RoundId,
-- 
2.43.0


From f9f55835cb2328915a85d2e49cf145a32c404e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 03/18] fix: recognise a round that only misses messages from
 banned parties as dead

---
 manul/src/session/session.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 3724efb..d7094e2 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -535,7 +535,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -588,14 +588,20 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self
+            .still_have_not_sent_messages
+            .iter()
+            .any(|key| self.message_is_being_processed(key) || !(self.is_banned(key) || transcript.is_banned(key)))
+        {
+            // There is still at least one message that can arrive, or is being processed;
+            // new messages from banned parties will not be accepted.
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
-- 
2.43.0


From 9a5df5f7038f620ab48b339affd8dcb3f5ff56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 04/18] fix: do not deliver cached messages of banned parties
 to the echo round

---
 manul/src/session/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index d7094e2..4e49324 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -493,7 +493,10 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
+            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id)
+                .into_iter()
+                .filter(|message| !transcript.is_banned(message.from()))
+                .collect::<Vec<_>>();
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             return Ok(RoundOutcome::AnotherRound {
-- 
2.43.0


From 78fc3b70ff3c7d984a9fa56a1daac2aa30c1730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 05/18] fix: reject messages from unexpected senders instead of
 failing with a local error

---
 manul/src/session/session.rs | 40 ++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 4e49324..a7ee5f9 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -344,6 +344,12 @@ where
                 trace!("[{key:?}] {err}");
                 return Ok(PreprocessOutcome::remote_error(err));
             }
+            if !self.communication_info.expecting_messages_from.contains(from) {
+                let err = "No message is expected from this party in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             MessageFor::ThisRound
         } else if acceptable_round_ids.contains(&message_round_id) {
             if accum.message_is_cached(from, &message_round_id) {
@@ -493,12 +499,10 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id)
-                .into_iter()
-                .filter(|message| !transcript.is_banned(message.from()))
-                .collect::<Vec<_>>();
+            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            let cached_messages = session.filter_acceptable(cached_messages);
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -517,17 +521,10 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                // These messages could have been cached before
-                // processing messages from the same node for the current round.
-                // So there might have been some new errors, and we need to check again
-                // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
-                    .into_iter()
-                    .filter(|message| !transcript.is_banned(message.from()))
-                    .collect::<Vec<_>>();
-
+                let cached_messages = filter_messages(accum.cached, &round_id);
                 let session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+                let cached_messages = session.filter_acceptable(cached_messages);
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -536,6 +533,23 @@ where
         }
     }
 
+    // Leaves only those of the messages cached for this round that can be processed.
+    fn filter_acceptable(
+        &self,
+        messages: Vec<VerifiedMessage<SP::Verifier>>,
+    ) -> Vec<VerifiedMessage<SP::Verifier>> {
+        messages
+            .into_iter()
+            // These messages could have been cached before
+            // processing messages from the same node for the previous round.
+            // So there might have been some new errors, and we need to check again
+            // if the sender is already banned.
+            .filter(|message| !self.transcript.is_banned(message.from()))
+            // When a message was cached, it was not known yet if this round expects it.
+            .filter(|message| self.communication_info.expecting_messages_from.contains(message.from()))
+            .collect()
+    }
+
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
         accum.can_finalize(&self.transcript)
-- 
2.43.0


From 2504febad757d57802e5db9bf942c480cbe448e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 06/18] fix: reject a second message of a party whose cached
 message is being processed

---
 manul/src/session/session.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index a7ee5f9..c914c2b 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    // The senders of the cached messages for this round that were returned to the user for processing.
+    cached_messages_from: BTreeSet<SP::Verifier>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -220,6 +222,7 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            cached_messages_from: BTreeSet::new(),
         })
     }
 
@@ -428,7 +431,10 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            &self.cached_messages_from,
+        )
     }
 
     fn terminate_inner(
@@ -500,9 +506,9 @@ where
                 accum.artifacts,
             ));
             let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
-            let session =
+            let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-            let cached_messages = session.filter_acceptable(cached_messages);
+            let cached_messages = session.accept_cached(cached_messages);
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -522,9 +528,9 @@ where
                 }
 
                 let cached_messages = filter_messages(accum.cached, &round_id);
-                let session =
+                let mut session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-                let cached_messages = session.filter_acceptable(cached_messages);
+                let cached_messages = session.accept_cached(cached_messages);
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -533,12 +539,10 @@ where
         }
     }
 
-    // Leaves only those of the messages cached for this round that can be processed.
-    fn filter_acceptable(
-        &self,
-        messages: Vec<VerifiedMessage<SP::Verifier>>,
-    ) -> Vec<VerifiedMessage<SP::Verifier>> {
-        messages
+    // Leaves only those of the messages cached for this round that can be processed,
+    // and marks them as being processed.
+    fn accept_cached(&mut self, messages: Vec<VerifiedMessage<SP::Verifier>>) -> Vec<VerifiedMessage<SP::Verifier>> {
+        let messages = messages
             .into_iter()
             // These messages could have been cached before
             // processing messages from the same node for the previous round.
@@ -547,7 +551,9 @@ where
             .filter(|message| !self.transcript.is_banned(message.from()))
             // When a message was cached, it was not known yet if this round expects it.
             .filter(|message| self.communication_info.expecting_messages_from.contains(message.from()))
-            .collect()
+            .collect::<Vec<_>>();
+        self.cached_messages_from = messages.iter().map(|message| message.from().clone()).collect();
+        messages
     }
 
     /// Checks if the round can be finalized.
@@ -589,11 +595,11 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, processing: &BTreeSet<SP::Verifier>) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing: processing.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached: BTreeMap::new(),
-- 
2.43.0


From 2959881afbf73740fc48c0da829c29574b1f7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 07/18] fix: keep messages cached for later rounds when
 entering an intermediate round

---
 manul/src/session/session.rs | 39 ++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index c914c2b..3a41299 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -121,8 +121,12 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     transcript: Transcript<P, SP>,
     // The senders of the cached messages for this round that were returned to the user for processing.
     cached_messages_from: BTreeSet<SP::Verifier>,
+    // The messages cached in the previous rounds for the rounds after this one.
+    cached_messages: CachedMessages<SP::Verifier>,
 }
 
+type CachedMessages<Verifier> = BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>;
+
 /// Possible non-erroneous results of finalizing a round.
 #[derive(Debug)]
 pub enum RoundOutcome<P: Protocol<SP::Verifier>, SP: SessionParameters> {
@@ -223,6 +227,7 @@ where
             echo_round_info,
             transcript,
             cached_messages_from: BTreeSet::new(),
+            cached_messages: CachedMessages::new(),
         })
     }
 
@@ -434,6 +439,7 @@ where
         RoundAccumulator::new(
             &self.communication_info.expecting_messages_from,
             &self.cached_messages_from,
+            &self.cached_messages,
         )
     }
 
@@ -505,10 +511,9 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-            let cached_messages = session.accept_cached(cached_messages);
+            let cached_messages = session.accept_cached(accum.cached);
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -527,10 +532,9 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                let cached_messages = filter_messages(accum.cached, &round_id);
                 let mut session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-                let cached_messages = session.accept_cached(cached_messages);
+                let cached_messages = session.accept_cached(accum.cached);
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -539,10 +543,10 @@ where
         }
     }
 
-    // Leaves only those of the messages cached for this round that can be processed,
-    // and marks them as being processed.
-    fn accept_cached(&mut self, messages: Vec<VerifiedMessage<SP::Verifier>>) -> Vec<VerifiedMessage<SP::Verifier>> {
-        let messages = messages
+    // Takes the messages cached for this round that can be processed, and marks them as being processed.
+    // Messages for other rounds are kept, since we may still get to those rounds.
+    fn accept_cached(&mut self, mut cached: CachedMessages<SP::Verifier>) -> Vec<VerifiedMessage<SP::Verifier>> {
+        let messages = take_messages(&mut cached, &self.round_id())
             .into_iter()
             // These messages could have been cached before
             // processing messages from the same node for the previous round.
@@ -552,6 +556,7 @@ where
             // When a message was cached, it was not known yet if this round expects it.
             .filter(|message| self.communication_info.expecting_messages_from.contains(message.from()))
             .collect::<Vec<_>>();
+        self.cached_messages = cached;
         self.cached_messages_from = messages.iter().map(|message| message.from().clone()).collect();
         messages
     }
@@ -582,7 +587,7 @@ pub struct RoundAccumulator<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     processing: BTreeSet<SP::Verifier>,
     payloads: BTreeMap<SP::Verifier, Payload>,
     artifacts: BTreeMap<SP::Verifier, Artifact>,
-    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    cached: CachedMessages<SP::Verifier>,
     echo_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>,
     normal_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>,
     direct_messages: BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>,
@@ -595,14 +600,18 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, processing: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        processing: &BTreeSet<SP::Verifier>,
+        cached: &CachedMessages<SP::Verifier>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: processing.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached: cached.clone(),
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -837,13 +846,13 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-fn filter_messages<Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
+fn take_messages<Verifier>(
+    messages: &mut CachedMessages<Verifier>,
     round_id: &RoundId,
 ) -> Vec<VerifiedMessage<Verifier>> {
     messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
+        .values_mut()
+        .filter_map(|messages| messages.remove(round_id))
         .collect()
 }
 
-- 
2.43.0


From bf569d69c4ba45e9cb01c622492eadacfabaf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 08/18] fix: bind signatures of message parts to the kind of
 the part

---
 manul/src/protocol.rs        |  2 +-
 manul/src/session/message.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/manul/src/protocol.rs b/manul/src/protocol.rs
index 9a74c83..716e123 100644
--- a/manul/src/protocol.rs
+++ b/manul/src/protocol.rs
@@ -39,7 +39,7 @@ pub(crate) use dyn_round::{Artifact, BoxedReceiveError, DynRound, Payload};
 pub(crate) use evidence::EvidenceProtocolMessage;
 pub(crate) use message::{
     DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, NormalBroadcast,
-    NormalBroadcastError, ProtocolMessagePart, ProtocolMessagePartHashable,
+    NormalBroadcastError, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable,
 };
 pub(crate) use rng::BoxedRng;
 pub(crate) use round::NoType;
diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..29e251d 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -12,7 +12,7 @@ use super::{
     LocalError,
 };
 use crate::protocol::{
-    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, ProtocolMessagePartHashable, RoundId,
+    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, PartKind, ProtocolMessagePartHashable, RoundId,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
@@ -108,12 +108,21 @@ pub struct MessageWithMetadata<M> {
 }
 
 fn message_digest<SP: SessionParameters>(
+    kind: PartKind,
     metadata: &MessageMetadata,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
+    // The part hash depends on the kind too, but when only the hash is available (in an echo round),
+    // the kind cannot be recovered from it.
+    let kind = match kind {
+        PartKind::EchoBroadcast => 0u8,
+        PartKind::NormalBroadcast => 1u8,
+        PartKind::DirectMessage => 2u8,
+    };
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
+        .chain_update([kind])
         .chain_update(SP::WireFormat::serialize(metadata)?)
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
@@ -125,7 +134,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP>(M::KIND, &self.metadata, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -389,7 +398,7 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        let digest = message_digest::<SP>(PartKind::EchoBroadcast, &self.metadata, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
-- 
2.43.0


From 3b4bcf50cf04c1d9577fa1f7c238e2155969a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 09/18] fix: compare the metadata of echoed messages with that
 of the main round when verifying evidence

---
 manul/src/session/echo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..a0e84eb 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -57,6 +57,13 @@ impl<Id: PartyId> InvalidEchoError<Id> {
         metadata: &MessageMetadata,
         message: &EchoRoundMessage<SP::Verifier>,
     ) -> Result<(), EvidenceError> {
+        // `metadata` is that of the echo round message, and the echoed messages come from the main round.
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not from an echo round".into()))?;
+        let expected_metadata = MessageMetadata::new(metadata.session_id(), &main_round_id);
+
         let invalid_echo = message.message_hashes.get(&self.invalid_echo_sender).ok_or_else(|| {
             EvidenceError::InvalidEvidence(format!(
                 "Did not find {:?} in the attached message",
@@ -74,7 +81,7 @@ impl<Id: PartyId> InvalidEchoError<Id> {
 
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        if verified_echo.metadata() != &expected_metadata {
             return Ok(());
         }
 
-- 
2.43.0


From 757ed7c67aa81f5ab6c458acdebe29f243ed6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 10/18] fix: check that mismatched broadcasts were sent by the
 accused party

---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..6738e68 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if self.error.guilty_party() != verifier {
+            return Err(EvidenceError::InvalidEvidence(
+                "The attached messages belong to a different party".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From 5246f6d25f218d8c187c2823c0d2b44f3367063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 11/18] fix: do not block on full channels when ending a round
 in the parallel runner

---
 manul/src/session/tokio.rs | 43 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 83823bf..1f0f83f 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -338,7 +338,33 @@ where
 
         debug!("{my_id}: Finalizing the round {}", session.round_id());
 
+        // Drop our copies of `Sender`s to let the channels close.
+        drop(outgoing_tx);
+        drop(processed_tx);
+
+        // Send all the remaining messages, and record the ones that were still being processed
+        loop {
+            tokio::select! {
+                Some((message_out, artifact)) = outgoing_rx.recv() => {
+                    let from = message_out.from.clone();
+                    let to = message_out.to.clone();
+                    tx.send(message_out)
+                        .await
+                        .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
+
+                    session.add_artifact(&mut accum, artifact)?;
+                }
+                Some(processed) = processed_rx.recv() => {
+                    session.add_processed_message(&mut accum, processed)?;
+                }
+                else => break,
+            }
+        }
+
+        debug!("{my_id}: Sent out all remaining messages");
+
         // Join all the handles created in this iteration.
+        // This should be done after draining the channels, otherwise the tasks may block trying to push into them.
 
         for message_creation_task in message_creation_tasks {
             message_creation_task
@@ -352,23 +378,6 @@ where
                 .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
         }
 
-        // Drop our copies of `Sender`s to let the channels close.
-        drop(outgoing_tx);
-        drop(processed_tx);
-
-        // Send all the remaining messages
-        while let Some((message_out, artifact)) = outgoing_rx.recv().await {
-            let from = message_out.from.clone();
-            let to = message_out.to.clone();
-            tx.send(message_out)
-                .await
-                .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
-
-            session.add_artifact(&mut accum, artifact)?;
-        }
-
-        debug!("{my_id}: Sent out all remaining messages");
-
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-- 
2.43.0


From 83876a487245da5f38c607f79c7711debb4dc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 12/18] fix: support executions without messages in run_sync

---
 manul/src/dev/run_sync.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..9330622 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -212,7 +212,7 @@ where
         states.insert(verifier, state);
     }
 
-    loop {
+    while !messages.is_empty() {
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,13 +247,10 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
 
+    trace!("All messages delivered");
+
     let mut reports = BTreeMap::new();
     for (verifier, state) in states {
         let report = match state {
-- 
2.43.0


From a38fcd2dbb66df8055b9b02694200f12834d50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 13/18] fix: include parents and siblings into the rounds
 simultaneous with rounds followed by an echo round

---
 manul/src/protocol/round_id.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 9659c18..193a5a9 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -182,11 +182,10 @@ impl TransitionInfo {
     /// the parent rounds (if those nodes still are not finalized while we already are),
     /// and the sibling rounds (if some nodes went on a different path).
     pub(crate) fn simultaneous_rounds(&self, followed_by_echo_round: bool) -> Result<BTreeSet<RoundId>, LocalError> {
-        let mut result = if followed_by_echo_round {
-            BTreeSet::from([self.id.echo()?])
-        } else {
-            self.parents.clone()
-        };
+        let mut result = self.parents.clone();
+        if followed_by_echo_round {
+            result.insert(self.id.echo()?);
+        }
         result.extend(self.siblings.iter().cloned());
         result.extend(self.children.iter().cloned());
         Ok(result)
@@ -201,7 +200,7 @@ impl TransitionInfo {
         Ok(Self {
             id: self.id.echo()?,
             parents: [self.id.clone()].into(),
-            siblings: [].into(),
+            siblings: self.siblings,
             children: self.children,
             may_produce_result: self.may_produce_result,
         })
-- 
2.43.0


From 35d40ec9e71855058c0fae731ecd3bfa89ff39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 14/18] fix: account for rounds on the other side of the border
 between chained protocols

---
 manul/src/combinators/chain.rs | 41 +++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/manul/src/combinators/chain.rs b/manul/src/combinators/chain.rs
index 4204fa3..846e7c6 100644
--- a/manul/src/combinators/chain.rs
+++ b/manul/src/combinators/chain.rs
@@ -50,7 +50,11 @@ Usage:
    Contains shared data for both protocols.
 */
 
-use alloc::{boxed::Box, collections::BTreeMap, format};
+use alloc::{
+    boxed::Box,
+    collections::{BTreeMap, BTreeSet},
+    format,
+};
 use core::fmt::Debug;
 
 use rand_core::CryptoRngCore;
@@ -305,6 +309,7 @@ where
                 transition,
                 round,
             },
+            border: BorderInfo::default(),
         };
         Ok(BoxedRound::new_dynamic(chained_round))
     }
@@ -317,6 +322,15 @@ where
     T: ChainedJoin<Id>,
 {
     state: ChainState<Id, T>,
+    border: BorderInfo,
+}
+
+/// The additions to the transition info of the wrapped round
+/// if the round it was reached from could finalize into either of the chained protocols.
+#[derive(Debug, Default)]
+struct BorderInfo {
+    parents: BTreeSet<RoundId>,
+    siblings: BTreeSet<RoundId>,
 }
 
 #[derive_where::derive_where(Debug)]
@@ -342,7 +356,7 @@ where
     type Protocol = T::Protocol;
 
     fn transition_info(&self) -> TransitionInfo {
-        match &self.state {
+        let mut tinfo = match &self.state {
             ChainState::Protocol1 { round, .. } => {
                 let mut tinfo = round.as_ref().transition_info().group_under(1);
                 if tinfo.may_produce_result {
@@ -352,7 +366,10 @@ where
                 tinfo
             }
             ChainState::Protocol2(round) => round.as_ref().transition_info().group_under(2),
-        }
+        };
+        tinfo.parents.extend(self.border.parents.iter().cloned());
+        tinfo.siblings.extend(self.border.siblings.iter().cloned());
+        tinfo
     }
 
     fn communication_info(&self) -> CommunicationInfo<Id> {
@@ -420,6 +437,8 @@ where
         payloads: BTreeMap<Id, Payload>,
         artifacts: BTreeMap<Id, Artifact>,
     ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError> {
+        let tinfo = self.transition_info();
+        let entry_round_id2 = T::EntryPoint::entry_round_id().group_under(2);
         match self.state {
             ChainState::Protocol1 {
                 id,
@@ -430,12 +449,23 @@ where
                 FinalizeOutcome::Result(result) => {
                     let entry_point2 = transition.make_entry_point2(result);
                     let round = entry_point2.make_round(&mut BoxedRng(rng), &shared_randomness, &id)?;
+                    let mut siblings = tinfo.children;
+                    siblings.remove(&entry_round_id2);
                     let chained_round = ChainedRound::<Id, T> {
                         state: ChainState::Protocol2(round),
+                        border: BorderInfo {
+                            parents: [tinfo.id].into(),
+                            siblings,
+                        },
                     };
                     Ok(FinalizeOutcome::AnotherRound(BoxedRound::new_dynamic(chained_round)))
                 }
                 FinalizeOutcome::AnotherRound(round) => {
+                    let siblings = if tinfo.children.contains(&entry_round_id2) {
+                        [entry_round_id2].into()
+                    } else {
+                        [].into()
+                    };
                     let chained_round = ChainedRound::<Id, T> {
                         state: ChainState::Protocol1 {
                             id,
@@ -443,6 +473,10 @@ where
                             round,
                             transition,
                         },
+                        border: BorderInfo {
+                            parents: [].into(),
+                            siblings,
+                        },
                     };
                     Ok(FinalizeOutcome::AnotherRound(BoxedRound::new_dynamic(chained_round)))
                 }
@@ -452,6 +486,7 @@ where
                 FinalizeOutcome::AnotherRound(round) => {
                     let chained_round = ChainedRound::<Id, T> {
                         state: ChainState::Protocol2(round),
+                        border: BorderInfo::default(),
                     };
                     Ok(FinalizeOutcome::AnotherRound(BoxedRound::new_dynamic(chained_round)))
                 }
-- 
2.43.0


From ee05738f51ab5722774d2036ab2c8f6d3e392151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 15/18] fix: give every party its own randomness in run_async

---
 manul/src/dev/tokio.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 944456e..caef4d8 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -3,7 +3,8 @@
 use alloc::{collections::BTreeMap, format, vec::Vec};
 
 use rand::Rng;
-use rand_core::CryptoRngCore;
+use rand_chacha::ChaCha20Rng;
+use rand_core::{CryptoRngCore, SeedableRng};
 use signature::Keypair;
 use tokio::sync::mpsc;
 use tokio_util::sync::CancellationToken;
@@ -70,6 +71,10 @@ where
     }
 }
 
+fn fork_rng(rng: &mut impl CryptoRngCore) -> Result<ChaCha20Rng, LocalError> {
+    ChaCha20Rng::from_rng(rng).map_err(|_| LocalError::new("Can't fork the RNG"))
+}
+
 /// Execute sessions for multiple nodes concurrently within a `tokio` runtime,
 /// given a vector of the signer and the entry point as a tuple for each node.
 ///
@@ -98,7 +103,8 @@ where
         .zip(txs.into_iter())
         .collect();
 
-    let dispatcher_task = message_dispatcher(rng.clone(), tx_map, dispatcher_rx);
+    let dispatcher_rng = fork_rng(rng)?;
+    let dispatcher_task = message_dispatcher(dispatcher_rng, tx_map, dispatcher_rx);
     let dispatcher = tokio::spawn(dispatcher_task);
     let cancellation = CancellationToken::new();
 
@@ -107,7 +113,8 @@ where
         .zip(entry_points.into_iter())
         .map(|(mut rx, (signer, entry_point))| {
             let tx = dispatcher_tx.clone();
-            let mut rng = rng.clone();
+            // The nodes must not share the randomness, so the RNG cannot be simply cloned.
+            let mut rng = fork_rng(rng)?;
 
             let session = Session::<_, SP>::new(&mut rng, session_id.clone(), signer, entry_point)?;
             let id = session.verifier().clone();
-- 
2.43.0


From e103bf097ba5be47735428d3282fa279e943628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 16/18] fix: do not fail run_async if a session finished before
 getting all messages

---
 manul/src/dev/tokio.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index caef4d8..b811d11 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -8,6 +8,7 @@ use rand_core::{CryptoRngCore, SeedableRng};
 use signature::Keypair;
 use tokio::sync::mpsc;
 use tokio_util::sync::CancellationToken;
+use tracing::debug;
 
 use super::run_sync::ExecutionResult;
 use crate::{
@@ -47,19 +48,21 @@ where
             let message_idx = rng.gen_range(0..messages.len());
             let outgoing = messages.swap_remove(message_idx);
 
-            txs.get(&outgoing.to)
-                .ok_or_else(|| {
-                    LocalError::new(format!(
-                        "Destination ({:?}) is missing in the map of channels",
-                        outgoing.to
-                    ))
-                })?
-                .send(MessageIn {
-                    from: outgoing.from,
-                    message: outgoing.message,
-                })
-                .await
-                .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+            let tx = txs.get(&outgoing.to).ok_or_else(|| {
+                LocalError::new(format!(
+                    "Destination ({:?}) is missing in the map of channels",
+                    outgoing.to
+                ))
+            })?;
+
+            let message_in = MessageIn {
+                from: outgoing.from,
+                message: outgoing.message,
+            };
+            if tx.send(message_in).await.is_err() {
+                // Not an error: a session does not have to wait for all the messages addressed to it.
+                debug!("The session of {:?} has already finished", outgoing.to);
+            }
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0


From c0e389a4aa3f5f4fb89e4a1371de75a21c5d66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 17/18] fix: avoid a deadlock in run_async with many parties

---
 manul/src/dev/tokio.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index b811d11..315fe1e 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -59,9 +59,19 @@ where
                 from: outgoing.from,
                 message: outgoing.message,
             };
-            if tx.send(message_in).await.is_err() {
+            match tx.try_send(message_in) {
+                Ok(()) => {}
+                // Not waiting here, since the session may itself be waiting for us to take its outgoing messages.
+                Err(mpsc::error::TrySendError::Full(message_in)) => messages.push(MessageOut {
+                    session_id: outgoing.session_id,
+                    from: message_in.from,
+                    to: outgoing.to,
+                    message: message_in.message,
+                }),
                 // Not an error: a session does not have to wait for all the messages addressed to it.
-                debug!("The session of {:?} has already finished", outgoing.to);
+                Err(mpsc::error::TrySendError::Closed(_)) => {
+                    debug!("The session of {:?} has already finished", outgoing.to)
+                }
             }
 
             // Give up execution so that the tasks could process messages.
-- 
2.43.0


From 7ef283af5137e980fcfd5921d71a189fc9578d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 18/18] fix: do not panic when verifying a made-up error of a
 round without provable errors

---
 manul/src/protocol/evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..916b79b 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,10 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // This can be reached with an evidence assembled by a third party, so it must not panic.
+        Err(EvidenceError::InvalidEvidence(
+            "This round does not generate provable errors".into(),
+        ))
     }
 }
 
-- 
2.43.0

