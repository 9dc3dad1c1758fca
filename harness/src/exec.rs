//! A party driven step by step through the public `Session` API.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

use manul::session::{
    CanFinalize, LocalError, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId,
    SessionReport, VerifiedMessage,
};
use manul::protocol::RoundId;
use rand_chacha::ChaCha20Rng;

use crate::{
    craft::rng,
    model::{new_log, Cfg, Ev, Log, Proto},
    sp::{Fmt, Id, Signer, SP},
};

pub struct Node<P: Proto, F: Fmt> {
    pub id: Id,
    pub session: Option<Session<P, SP<F>>>,
    pub accum: Option<RoundAccumulator<P, SP<F>>>,
    pub flight: BTreeMap<String, VerifiedMessage<Id>>,
    pub queue: Vec<VerifiedMessage<Id>>,
    pub log: Log,
    pub rng: ChaCha20Rng,
    pub out: Vec<(Id, Message<Id>)>,
}

pub enum Step<P: Proto, F: Fmt> {
    Next(usize),
    Done(SessionReport<P, SP<F>>),
}

pub fn cf_code(c: CanFinalize) -> &'static str {
    match c {
        CanFinalize::Yes => "Y",
        CanFinalize::NotYet => "N",
        CanFinalize::Never => "X",
    }
}

impl<P: Proto, F: Fmt> Node<P, F> {
    pub fn start(cfg: &Arc<Cfg>, id: &str, sid: &SessionId) -> Result<Self, LocalError> {
        let log = new_log();
        let id = Id::new(id);
        let mut r = rng(3);
        let session =
            Session::<P, SP<F>>::new(&mut r, sid.clone(), Signer::logged(&id, &log), P::ep(cfg, &log, vec![], "in".into()))?;
        let mut n =
            Node { id, session: None, accum: None, flight: BTreeMap::new(), queue: vec![], log, rng: r, out: vec![] };
        n.enter(session)?;
        Ok(n)
    }

    fn enter(&mut self, session: Session<P, SP<F>>) -> Result<(), LocalError> {
        let mut accum = session.make_accumulator();
        self.out.clear();
        self.flight.clear();
        for d in session.message_destinations() {
            let (m, art) = session.make_message(&mut self.rng, d)?;
            session.add_artifact(&mut accum, art)?;
            self.out.push((d.clone(), m));
        }
        self.session = Some(session);
        self.accum = Some(accum);
        Ok(())
    }

    pub fn s(&self) -> &Session<P, SP<F>> {
        self.session.as_ref().expect("session")
    }
    pub fn round_id(&self) -> RoundId {
        self.s().round_id()
    }
    pub fn main_rid(&self) -> String {
        self.log
            .lock()
            .unwrap()
            .iter()
            .rev()
            .find_map(|e| match e {
                Ev::New { rid, .. } => Some(rid.clone()),
                _ => None,
            })
            .expect("a round was created")
    }
    pub fn destinations(&self) -> BTreeSet<String> {
        self.out.iter().map(|(d, _)| d.0.clone()).collect()
    }

    pub fn deliver(&mut self, from: &Id, m: Message<Id>) -> Result<&'static str, LocalError> {
        let session = self.session.as_ref().expect("session");
        let accum = self.accum.as_mut().expect("accum");
        Ok(match session.preprocess_message(accum, from, m)? {
            PreprocessOutcome::ToProcess(v) => {
                self.flight.insert(from.0.clone(), *v);
                "P"
            }
            PreprocessOutcome::Cached => "C",
            PreprocessOutcome::Error(_) => "E",
        })
    }

    pub fn add(&mut self, from: &str) -> Result<bool, LocalError> {
        let Some(v) = self.flight.remove(from) else { return Ok(false) };
        let session = self.session.as_ref().expect("session");
        let processed = session.process_message(v);
        session.add_processed_message(self.accum.as_mut().expect("accum"), processed)?;
        Ok(true)
    }

    pub fn process_queue(&mut self) -> Result<(), LocalError> {
        let session = self.session.as_ref().expect("session");
        for v in std::mem::take(&mut self.queue) {
            let processed = session.process_message(v);
            session.add_processed_message(self.accum.as_mut().expect("accum"), processed)?;
        }
        Ok(())
    }

    pub fn can_finalize(&self) -> &'static str {
        cf_code(self.s().can_finalize(self.accum.as_ref().expect("accum")))
    }

    pub fn finalize(&mut self) -> Result<Step<P, F>, LocalError> {
        let session = self.session.take().expect("session");
        let accum = self.accum.take().expect("accum");
        match session.finalize_round(&mut self.rng, accum)? {
            RoundOutcome::Finished(report) => Ok(Step::Done(report)),
            RoundOutcome::AnotherRound { session, cached_messages } => {
                let n = cached_messages.len();
                self.queue = cached_messages;
                self.enter(*session)?;
                Ok(Step::Next(n))
            }
        }
    }

    pub fn terminate(&mut self, errors: bool) -> Result<SessionReport<P, SP<F>>, LocalError> {
        let session = self.session.take().expect("session");
        let accum = self.accum.take().expect("accum");
        if errors {
            session.terminate_due_to_errors(accum)
        } else {
            session.terminate(accum)
        }
    }
}

/// Everything sent in an execution of all parties by the book, messages delivered in order,
/// and the first round id of each stage.
pub struct RefRun {
    /// (from, round id, destination) -> message
    pub msgs: BTreeMap<(String, String, String), Message<Id>>,
    pub templates: BTreeMap<usize, RoundId>,
    pub problems: Vec<String>,
}

pub fn ref_run<P: Proto, F: Fmt>(cfg: &Arc<Cfg>, sid: &SessionId) -> RefRun {
    let mut rr = RefRun { msgs: BTreeMap::new(), templates: BTreeMap::new(), problems: vec![] };
    let mut nodes: BTreeMap<String, Node<P, F>> = BTreeMap::new();
    let mut wire: std::collections::VecDeque<(Id, Id, Message<Id>)> = Default::default();
    fn record<P: Proto, F: Fmt>(
        n: &Node<P, F>,
        rr: &mut RefRun,
        wire: &mut std::collections::VecDeque<(Id, Id, Message<Id>)>,
        echo: bool,
    ) {
        let rid = n.main_rid();
        let stage = crate::model::parse_rid(&rid).0;
        if !echo {
            rr.templates.entry(stage).or_insert_with(|| n.round_id());
        }
        let name = if echo { format!("{rid}e") } else { rid };
        for (d, m) in &n.out {
            rr.msgs.insert((n.id.0.clone(), name.clone(), d.0.clone()), m.clone());
            wire.push_back((n.id.clone(), d.clone(), m.clone()));
        }
    }
    let names: Vec<String> = cfg.stages[0].nodes.iter().cloned().collect();
    for id in &names {
        match Node::<P, F>::start(cfg, id, sid) {
            Ok(n) => {
                record(&n, &mut rr, &mut wire, false);
                nodes.insert(id.clone(), n);
            }
            Err(e) => rr.problems.push(format!("{id}: {e:?}")),
        }
    }
    // parties that finished or failed are removed
    let advance = |id: &String,
                       nodes: &mut BTreeMap<String, Node<P, F>>,
                       rr: &mut RefRun,
                       wire: &mut std::collections::VecDeque<(Id, Id, Message<Id>)>| {
        loop {
            let Some(n) = nodes.get_mut(id) else { return };
            if let Err(e) = n.process_queue() {
                rr.problems.push(format!("{id}: {e:?}"));
                nodes.remove(id);
                return;
            }
            match n.can_finalize() {
                "Y" => {}
                "X" => {
                    rr.problems.push(format!("{id}: an honest round died"));
                    nodes.remove(id);
                    return;
                }
                _ => return,
            }
            let before = n.main_rid();
            match n.finalize() {
                Ok(Step::Next(_)) => {
                    let echo = n.main_rid() == before;
                    record(n, rr, wire, echo);
                }
                Ok(Step::Done(_)) => {
                    nodes.remove(id);
                    return;
                }
                Err(e) => {
                    // (some configurations break the declared graph on purpose)
                    rr.problems.push(format!("{id}: {e:?}"));
                    nodes.remove(id);
                    return;
                }
            }
        }
    };
    if names.len() > 20 {
        // (the work grows with the cube of the number of parties; just the beginning)
        return rr;
    }
    for id in &names {
        advance(id, &mut nodes, &mut rr, &mut wire);
    }
    while let Some((from, to, m)) = wire.pop_front() {
        if let Some(n) = nodes.get_mut(&to.0) {
            let r = n.deliver(&from, m).and_then(|o| {
                if o == "P" {
                    n.add(&from.0)?;
                }
                Ok(o)
            });
            match r {
                Ok("E") => rr.problems.push(format!("{} refused a message of honest {}", to.0, from.0)),
                Ok(_) => {}
                Err(e) => {
                    rr.problems.push(format!("{}: {e:?}", to.0));
                    nodes.remove(&to.0);
                }
            }
        }
        advance(&to.0, &mut nodes, &mut rr, &mut wire);
    }
    for id in nodes.keys() {
        rr.problems.push(format!("{id} did not finish"));
    }
    rr
}
