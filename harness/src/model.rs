//! The data-driven model protocol: a protocol whose rounds, message parts, topology and transitions are
//! read from the configuration printed by the TLA+ model.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    sync::{Arc, Condvar, LockResult, Mutex, MutexGuard},
};

use manul::{
    combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSharedData, ChainedSplit},
    protocol::*,
};
use rand_core::CryptoRngCore;
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize};

use crate::sp::Id;

/// TLC prints an empty function as an empty sequence.
pub fn map_or_empty<'de, D, V>(d: D) -> Result<BTreeMap<String, V>, D::Error>
where
    D: Deserializer<'de>,
    V: DeserializeOwned,
{
    let v = serde_json::Value::deserialize(d)?;
    match v {
        serde_json::Value::Array(a) if a.is_empty() => Ok(BTreeMap::new()),
        other => serde_json::from_value(other).map_err(serde::de::Error::custom),
    }
}

#[derive(Debug, Clone, Deserialize)]
pub struct RoundCfg {
    pub parents: BTreeSet<String>,
    pub siblings: BTreeSet<String>,
    pub children: BTreeSet<String>,
    /// may produce a result
    pub res: bool,
    pub eb: bool,
    pub nb: bool,
    pub dm: bool,
    /// generates no errors at the protocol level
    #[serde(default)]
    pub quiet: bool,
    pub dst: BTreeMap<String, BTreeSet<String>>,
    pub exp: BTreeMap<String, BTreeSet<String>>,
    pub part: BTreeMap<String, String>,
    pub tgt: BTreeMap<String, BTreeSet<String>>,
    pub next: BTreeMap<String, String>,
}

#[derive(Debug, Clone, Deserialize)]
pub struct ErrCfg {
    pub this: BTreeSet<String>,
    #[serde(deserialize_with = "map_or_empty")]
    pub prev: BTreeMap<String, BTreeSet<String>>,
    pub echos: BTreeSet<String>,
}

#[derive(Debug, Clone, Deserialize)]
pub struct StageCfg {
    pub nodes: BTreeSet<String>,
    pub entry: String,
    pub rounds: BTreeMap<String, RoundCfg>,
    #[serde(deserialize_with = "map_or_empty")]
    pub errs: BTreeMap<String, ErrCfg>,
}

#[derive(Debug, Clone, Deserialize)]
pub struct Cfg {
    /// "single", "chain2", "chainL" = ((A,B),C), "chainR" = (A,(B,C))
    pub shape: String,
    pub stages: Vec<StageCfg>,
}

pub fn letter(stage: usize) -> char {
    (b'A' + stage as u8) as char
}

/// "B12" -> (1, 12); echo suffix must be stripped.
pub fn parse_rid(rid: &str) -> (usize, u8) {
    let stage = (rid.as_bytes()[0] - b'A') as usize;
    (stage, rid[1..].parse().expect("round number"))
}

pub fn split_echo(rid: &str) -> (&str, bool) {
    match rid.strip_suffix('e') {
        Some(r) => (r, true),
        None => (rid, false),
    }
}

thread_local! {
    pub static CFG: RefCell<Option<Arc<Cfg>>> = const { RefCell::new(None) };
    /// What `verify_evidence` was given.
    pub static VLOG: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
}

thread_local! {
    /// In threads of an asynchronous runtime: where its current configuration is kept.
    pub static CELL: RefCell<Option<Arc<Mutex<Option<Arc<Cfg>>>>>> = const { RefCell::new(None) };
}

pub fn set_cfg(cfg: &Arc<Cfg>) {
    CFG.with(|c| *c.borrow_mut() = Some(cfg.clone()));
}
pub fn get_cfg() -> Arc<Cfg> {
    if let Some(cfg) = CELL.with(|c| c.borrow().as_ref().and_then(|c| c.lock().unwrap().clone())) {
        return cfg;
    }
    CFG.with(|c| c.borrow().clone().expect("cfg set"))
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Seen {
    pub stage: usize,
    pub rid: String,
    pub from: Id,
    pub rnd: Vec<u8>,
    pub shared: String,
    pub err: String,
    pub this: BTreeMap<String, Body>,
    pub prev: BTreeMap<String, BTreeMap<String, Body>>,
    pub echos: BTreeMap<String, BTreeMap<String, Body>>,
    pub unexpected: Vec<String>,
}

/// The content of a message part: where it comes from and goes to (`t`), and its payload code.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Body {
    pub t: String,
    pub c: String,
}

pub fn tag(from: &str, rid: &str, kind: &str, dest: &str) -> String {
    if kind == "dm" {
        format!("{from}/{rid}/dm/{dest}")
    } else {
        format!("{from}/{rid}/{kind}")
    }
}

pub trait Slot: 'static + Serialize + DeserializeOwned + Send + Sync + Debug + Clone {
    const ON: bool;
    fn make(b: Body) -> Self;
    fn body(&self) -> Option<Body>;
}
impl Slot for Body {
    const ON: bool = true;
    fn make(b: Body) -> Self {
        b
    }
    fn body(&self) -> Option<Body> {
        Some(self.clone())
    }
}
/// What a round that does not have some part makes by default.
pub fn no_message() -> NoMessage {
    let why = "a round does not have to make what it does not have";
    Quiet.make_echo_broadcast(&mut NoRng).expect(why);
    Quiet.make_normal_broadcast(&mut NoRng).expect(why)
}
pub fn no_artifact() -> NoArtifact {
    Quiet.make_direct_message(&mut NoRng, &Id::new("A")).expect("a round does not have to make what it does not have").1
}

/// Default methods draw nothing.
struct NoRng;
impl rand_core::RngCore for NoRng {
    fn next_u32(&mut self) -> u32 {
        panic!("randomness drawn for an absent message part")
    }
    fn next_u64(&mut self) -> u64 {
        panic!("randomness drawn for an absent message part")
    }
    fn fill_bytes(&mut self, _dest: &mut [u8]) {
        panic!("randomness drawn for an absent message part")
    }
    fn try_fill_bytes(&mut self, _dest: &mut [u8]) -> Result<(), rand_core::Error> {
        panic!("randomness drawn for an absent message part")
    }
}
impl rand_core::CryptoRng for NoRng {}

/// A round without messages that leaves everything possible to the default methods.
#[derive(Debug)]
struct Quiet;
impl Round<Id> for Quiet {
    type Protocol = MP<0>;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = NoMessage;
    type NormalBroadcast = NoMessage;
    type EchoBroadcast = NoMessage;
    type Payload = ();
    type Artifact = NoArtifact;
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo::new_linear_terminating(1)
    }
    fn communication_info(&self) -> CommunicationInfo<Id> {
        CommunicationInfo::regular(&BTreeSet::new())
    }
    fn receive_message(&self, _from: &Id, _message: ProtocolMessage<Id, Self>) -> Result<(), ReceiveError<Id, Self>> {
        Ok(())
    }
    fn finalize(
        self,
        _rng: &mut impl CryptoRngCore,
        _payloads: BTreeMap<Id, ()>,
        _artifacts: BTreeMap<Id, NoArtifact>,
    ) -> Result<FinalizeOutcome<Id, MP<0>>, LocalError> {
        Err(LocalError::new("never executed"))
    }
}

/// The declared transitions of a round, by way of the constructors for common cases as far as these go.
fn transition_info(rid: &str, q: &RoundCfg) -> TransitionInfo {
    let n = parse_rid(rid).1;
    let nums = |xs: &BTreeSet<String>| xs.iter().map(|r| parse_rid(r).1).collect::<BTreeSet<_>>();
    let (parents, mut children) = (nums(&q.parents), nums(&q.children));
    let mut info = if !q.res && children.remove(&(n + 1)) {
        TransitionInfo::new_linear(n)
    } else {
        let mut info = TransitionInfo::new_linear_terminating(n);
        info.may_produce_result = q.res;
        info
    };
    let linear_parents: BTreeSet<_> = if n > 1 { [n - 1].into() } else { [].into() };
    if parents != linear_parents {
        info.parents = rids(&q.parents);
    }
    info.with_siblings(nums(&q.siblings)).with_children(children)
}
impl Slot for NoMessage {
    const ON: bool = false;
    fn make(_b: Body) -> Self {
        no_message()
    }
    fn body(&self) -> Option<Body> {
        None
    }
}

/// The artifact type for a direct message type.
pub trait DmSlot: Slot {
    type Art: 'static + Send + Sync + Debug;
    fn art(rid: &str, dest: &Id) -> Self::Art;
    fn show(a: &Self::Art) -> String;
}
impl DmSlot for Body {
    type Art = String;
    fn art(rid: &str, dest: &Id) -> String {
        format!("{rid}>{}", dest.0)
    }
    fn show(a: &String) -> String {
        a.clone()
    }
}
impl DmSlot for NoMessage {
    type Art = NoArtifact;
    fn art(_rid: &str, _dest: &Id) -> NoArtifact {
        no_artifact()
    }
    fn show(_a: &NoArtifact) -> String {
        "-".into()
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    /// a round object was created
    New { me: String, rid: String },
    Recv { me: String, rid: String, from: String, dm: Option<Body>, eb: Option<Body>, nb: Option<Body> },
    Fin { me: String, rid: String, pay: BTreeMap<String, Pay>, art: BTreeMap<String, String> },
}

/// What is held up, and who is waiting for it, in the order they came.
#[derive(Debug, Default)]
struct Held {
    what: BTreeSet<String>,
    waiting: BTreeMap<u64, Vec<String>>,
    last: u64,
    newest_first: bool,
}
impl Held {
    fn held(&self, names: &[String]) -> bool {
        names.iter().any(|n| self.what.contains(n))
    }
    /// Whose turn it is to go on.
    fn turn(&self) -> Option<u64> {
        let mut free = self.waiting.iter().filter(|(_, names)| !self.held(names)).map(|(t, _)| *t);
        if self.newest_first {
            free.next_back()
        } else {
            free.next()
        }
    }
}

/// What the protocol was called for, and what is to be held up until released.
#[derive(Debug, Default)]
pub struct LogInner {
    ev: Mutex<Vec<Ev>>,
    held: Mutex<Held>,
    cv: Condvar,
    /// randomness taken from the generators we were given: what for, and what was drawn
    draws: Mutex<Vec<(String, [u8; 16])>>,
    /// the shared randomness every entry point was given
    pub rnds: Mutex<Vec<(String, Vec<u8>)>>,
}
impl LogInner {
    pub fn draw(&self, what: impl FnOnce() -> String, rng: &mut impl CryptoRngCore) {
        let mut b = [0; 16];
        let mut draws = self.draws.lock().unwrap();
        // by all the methods a generator has
        match draws.len() % 4 {
            0 => rng.fill_bytes(&mut b),
            1 => rng.try_fill_bytes(&mut b).expect("there is randomness"),
            2 => b.chunks_mut(8).for_each(|c| c.copy_from_slice(&rng.next_u64().to_le_bytes())),
            _ => b.chunks_mut(4).for_each(|c| c.copy_from_slice(&rng.next_u32().to_le_bytes())),
        }
        draws.push((what(), b));
    }
    /// Randomness that was handed out more than once.
    pub fn repeated<'a>(logs: impl Iterator<Item = &'a LogInner>) -> Vec<String> {
        let mut seen: std::collections::HashMap<[u8; 16], String> = Default::default();
        let mut rep = vec![];
        for l in logs {
            for (what, b) in l.draws.lock().unwrap().iter() {
                if let Some(other) = seen.insert(*b, what.clone()) {
                    rep.push(format!("the same randomness for {other} and for {what}"));
                }
            }
        }
        rep
    }
    pub fn drawn(&self) -> usize {
        self.draws.lock().unwrap().len()
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, Vec<Ev>>> {
        self.ev.lock()
    }
    pub fn hold(&self, what: &BTreeSet<String>, newest_first: bool) {
        let mut h = self.held.lock().unwrap();
        h.what = what.clone();
        h.newest_first = newest_first;
    }
    pub fn release(&self, what: Option<&str>) {
        let mut h = self.held.lock().unwrap();
        match what {
            Some(w) => {
                h.what.remove(w);
            }
            None => h.what.clear(),
        }
        self.cv.notify_all();
    }
    /// Returns when nothing of this is held up; those that had to wait go on one after another.
    fn pass(&self, names: &[&str]) {
        let mut h = self.held.lock().unwrap();
        let names: Vec<String> = names.iter().map(|n| n.to_string()).collect();
        if !h.held(&names) {
            return;
        }
        h.last += 1;
        let t = h.last;
        h.waiting.insert(t, names);
        while h.turn() != Some(t) {
            h = self.cv.wait(h).unwrap();
        }
        if h.last > 100 {
            // (what is done with so many may depend on the order in which they are finished)
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        h.waiting.remove(&t);
        self.cv.notify_all();
    }
}
pub type Log = Arc<LogInner>;
pub fn new_log() -> Log {
    Default::default()
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Pay {
    pub rid: String,
    pub from: String,
    pub dm: String,
    pub eb: String,
    pub nb: String,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MResult {
    /// the rounds executed so far
    pub trail: Vec<String>,
    /// what the first stage got from its entry point, passed along
    pub input: String,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct MP<const S: usize>;

#[derive(Debug, Clone)]
pub struct Shared {
    pub token: String,
}

pub fn shared_token(stage: usize) -> String {
    format!("shared-{}", letter(stage))
}

type M8<const S: usize> = MRound<S, Body, Body, Body>;

#[macro_export]
macro_rules! by_kinds {
    ($q:expr, $S:ident, $f:ident) => {
        match ($q.eb, $q.nb, $q.dm) {
            (true, true, true) => $f!(Body, Body, Body),
            (true, true, false) => $f!(Body, Body, NoMessage),
            (true, false, true) => $f!(Body, NoMessage, Body),
            (true, false, false) => $f!(Body, NoMessage, NoMessage),
            (false, true, true) => $f!(NoMessage, Body, Body),
            (false, true, false) => $f!(NoMessage, Body, NoMessage),
            (false, false, true) => $f!(NoMessage, NoMessage, Body),
            (false, false, false) => $f!(NoMessage, NoMessage, NoMessage),
        }
    };
}

impl<const S: usize> Protocol<Id> for MP<S> {
    type Result = MResult;
    type SharedData = Shared;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        let cfg = get_cfg();
        let stage = cfg.stages.get(S)?;
        for (rid, q) in stage.rounds.iter() {
            if round_id == parse_rid(rid).1 {
                macro_rules! info {
                    ($e:ty, $n:ty, $d:ty) => {
                        Some(if q.quiet {
                            RoundInfo::new::<QRound<S, $e, $n, $d>>()
                        } else {
                            RoundInfo::new::<MRound<S, $e, $n, $d>>()
                        })
                    };
                }
                return by_kinds!(q, S, info);
            }
        }
        None
    }
}

#[derive(Debug)]
pub struct Ctx {
    pub cfg: Arc<Cfg>,
    pub me: Id,
    pub log: Log,
    pub trail: Vec<String>,
    pub input: String,
    pub rnd: Vec<u8>,
    /// where an extension wants finalize() to go
    pub divert: Option<String>,
}

#[derive(Debug)]
pub struct MRound<const S: usize, E: Slot, N: Slot, D: DmSlot> {
    pub ctx: Ctx,
    pub rid: String,
    _p: std::marker::PhantomData<fn() -> (E, N, D)>,
}

pub fn mk_round<const S: usize>(ctx: Ctx, rid: &str) -> BoxedRound<Id, MP<S>> {
    let cfg = ctx.cfg.clone();
    let q = cfg.stages[S].rounds.get(rid).unwrap_or_else(|| panic!("no such round {rid}"));
    ctx.log.lock().unwrap().push(Ev::New { me: ctx.me.0.clone(), rid: rid.to_string() });
    macro_rules! mk {
        ($e:ty, $n:ty, $d:ty) => {{
            let quiet = q.quiet;
            let r = MRound::<S, $e, $n, $d> { ctx, rid: rid.to_string(), _p: std::marker::PhantomData };
            if quiet {
                BoxedRound::new(QRound(r))
            } else {
                BoxedRound::new(r)
            }
        }};
    }
    by_kinds!(q, S, mk)
}

fn rids(xs: &BTreeSet<String>) -> BTreeSet<RoundId> {
    xs.iter().map(|r| RoundId::new(parse_rid(r).1)).collect()
}
fn ids(xs: &BTreeSet<String>) -> BTreeSet<Id> {
    xs.iter().map(|x| Id(x.clone())).collect()
}

impl<const S: usize, E: Slot, N: Slot, D: DmSlot> MRound<S, E, N, D> {
    fn q(&self) -> &RoundCfg {
        &self.ctx.cfg.stages[S].rounds[&self.rid]
    }
    pub fn body(&self, kind: &str, dest: &str) -> Body {
        Body { t: tag(&self.ctx.me.0, &self.rid, kind, dest), c: "ok0".into() }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct MpError<const S: usize, E: Slot, N: Slot, D: DmSlot> {
    pub name: String,
    pub this: BTreeSet<String>,
    pub prev: Vec<(u8, BTreeSet<String>)>,
    pub echos: Vec<u8>,
    #[serde(skip)]
    _p: std::marker::PhantomData<fn() -> (E, N, D)>,
}

fn parts(xs: &BTreeSet<String>) -> RequiredMessageParts {
    let mut r: Option<RequiredMessageParts> = None;
    // (different orders, for the different constructors)
    let mut xs: Vec<&String> = xs.iter().collect();
    if xs.len() == 3 || !xs.iter().any(|x| *x == "eb") {
        xs.reverse();
    }
    for x in xs {
        r = Some(match (r, x.as_str()) {
            (None, "dm") => RequiredMessageParts::direct_message(),
            (None, "eb") => RequiredMessageParts::echo_broadcast(),
            (None, _) => RequiredMessageParts::normal_broadcast(),
            (Some(r), "dm") => r.and_direct_message(),
            (Some(r), "eb") => r.and_echo_broadcast(),
            (Some(r), _) => r.and_normal_broadcast(),
        });
    }
    r.expect("at least one part")
}

impl<const S: usize, E: Slot, N: Slot, D: DmSlot> ProtocolError<Id> for MpError<S, E, N, D> {
    type Round = MRound<S, E, N, D>;
    fn description(&self) -> String {
        format!("model error {}", self.name)
    }
    fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
        let prev = if self.prev.is_empty() {
            None
        } else {
            Some(self.prev.iter().map(|(n, ps)| (RoundId::new(*n), parts(ps))).collect())
        };
        let echos =
            if self.echos.is_empty() { None } else { Some(self.echos.iter().map(|n| RoundId::new(*n)).collect()) };
        RequiredMessages::new(parts(&self.this), prev, echos)
    }
    fn verify_evidence(
        &self,
        round_id: &RoundId,
        from: &Id,
        shared_randomness: &[u8],
        shared_data: &Shared,
        messages: EvidenceMessages<'_, Id, Self::Round>,
    ) -> Result<(), EvidenceError> {
        let cfg = get_cfg();
        let bad = |s: String| EvidenceError::InvalidEvidence(s);
        let rid = cfg.stages[S]
            .rounds
            .keys()
            .find(|r| round_id == parse_rid(r).1)
            .cloned()
            .ok_or_else(|| bad("round id is not in this stage".into()))?;
        let mut unexpected = vec![];
        let mut this = BTreeMap::new();
        for (k, on, got) in [
            ("dm", D::ON, messages.direct_message().map(|x| x.body())),
            ("eb", E::ON, messages.echo_broadcast().map(|x| x.body())),
            ("nb", N::ON, messages.normal_broadcast().map(|x| x.body())),
        ] {
            let want = self.this.contains(k);
            match (want, got) {
                (true, Ok(Some(b))) => {
                    this.insert(k.to_string(), b);
                }
                // a part of the kind this round does not have
                (true, Ok(None)) => {}
                (true, Err(e)) => return Err(e),
                (false, Ok(_)) => unexpected.push(format!("this/{k}")),
                (false, Err(_)) => {}
            }
            let _ = on;
        }
        let mut prev: BTreeMap<String, BTreeMap<String, Body>> = BTreeMap::new();
        for r in cfg.stages[S].rounds.keys() {
            let n = parse_rid(r).1;
            let wanted = self.prev.iter().find(|(m, _)| *m == n).map(|(_, ps)| ps.clone()).unwrap_or_default();
            let mut got = BTreeMap::new();
            for (k, res) in [
                ("dm", messages.previous_direct_message::<M8<S>>(n)),
                ("eb", messages.previous_echo_broadcast::<M8<S>>(n)),
                ("nb", messages.previous_normal_broadcast::<M8<S>>(n)),
            ] {
                match (wanted.contains(k), res) {
                    (true, Ok(b)) => {
                        got.insert(k.to_string(), b);
                    }
                    (true, Err(e)) => return Err(e),
                    (false, Ok(_)) => unexpected.push(format!("prev/{r}/{k}")),
                    (false, Err(_)) => {}
                }
            }
            if !wanted.is_empty() {
                prev.insert(r.clone(), got);
            }
        }
        let mut echos: BTreeMap<String, BTreeMap<String, Body>> = BTreeMap::new();
        for r in cfg.stages[S].rounds.keys() {
            let n = parse_rid(r).1;
            match (self.echos.contains(&n), messages.combined_echos::<M8<S>>(n)) {
                (true, Ok(m)) => {
                    echos.insert(r.clone(), m.into_iter().map(|(id, b)| (id.0, b)).collect());
                }
                (true, Err(e)) => return Err(e),
                (false, Ok(_)) => unexpected.push(format!("echos/{r}")),
                (false, Err(_)) => {}
            }
        }
        let mut guilty = this.values().any(|b| b.c == self.name);
        if self.name.contains("inc") {
            // parts that are not what they should be, or with different contents
            let is = |b: &Body, by: &str, r: &str, k: &str| {
                let t = format!("{by}/{r}/{k}");
                b.t == t || b.t.starts_with(&format!("{t}/"))
            };
            let mine: Vec<(&Body, &String, &String)> = this
                .iter()
                .map(|(k, b)| (b, &rid, k))
                .chain(prev.iter().flat_map(|(r, m)| m.iter().map(move |(k, b)| (b, r, k))))
                .collect();
            let echos: &BTreeMap<String, BTreeMap<String, Body>> = &echos;
            guilty |= mine.iter().any(|(b, r, k)| !is(b, &from.0, r, k));
            guilty |= echos.iter().any(|(r, m)| m.iter().any(|(w, b)| !is(b, w, r, "eb")));
            guilty |= mine.windows(2).any(|w| w[0].0.c != w[1].0.c);
        }
        let seen = Seen {
            stage: S,
            rid,
            from: from.clone(),
            rnd: shared_randomness.to_vec(),
            shared: shared_data.token.clone(),
            err: self.name.clone(),
            this,
            prev,
            echos,
            unexpected,
        };
        VLOG.with(|v| v.borrow_mut().push(seen));
        if shared_data.token != shared_token(S) {
            return Err(bad("foreign shared data".into()));
        }
        if !guilty {
            return Err(bad("the message is fine".into()));
        }
        Ok(())
    }
}

impl<const S: usize, E: Slot, N: Slot, D: DmSlot> Round<Id> for MRound<S, E, N, D> {
    type Protocol = MP<S>;
    type ProtocolError = MpError<S, E, N, D>;
    type DirectMessage = D;
    type NormalBroadcast = N;
    type EchoBroadcast = E;
    type Payload = Pay;
    type Artifact = D::Art;

    fn transition_info(&self) -> TransitionInfo {
        transition_info(&self.rid, self.q())
    }

    fn communication_info(&self) -> CommunicationInfo<Id> {
        let q = self.q();
        let me = &self.ctx.me.0;
        if q.part[me] == "D" && q.dst[me] == q.exp[me] {
            return CommunicationInfo::regular(&ids(&q.dst[me]));
        }
        CommunicationInfo {
            message_destinations: ids(&q.dst[me]),
            expecting_messages_from: ids(&q.exp[me]),
            echo_round_participation: match q.part[me].as_str() {
                "D" => EchoRoundParticipation::Default,
                "S" => EchoRoundParticipation::Send,
                _ => EchoRoundParticipation::Receive { echo_targets: ids(&q.tgt[me]) },
            },
        }
    }

    fn make_direct_message(&self, rng: &mut impl CryptoRngCore, destination: &Id) -> Result<(D, D::Art), LocalError> {
        self.ctx.log.draw(|| format!("{}'s message to {} in {}", self.ctx.me.0, destination.0, self.rid), rng);
        if D::ON {
            self.ctx.log.pass(&["make"]);
        }
        Ok((D::make(self.body("dm", &destination.0)), D::art(&self.rid, destination)))
    }
    fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<E, LocalError> {
        if self.q().dst[&self.ctx.me.0].is_empty() {
            return Err(LocalError::new("asked for an echo broadcast in a round that sends nothing"));
        }
        self.ctx.log.draw(|| format!("{}'s echo broadcast in {}", self.ctx.me.0, self.rid), rng);
        Ok(E::make(self.body("eb", "")))
    }
    fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<N, LocalError> {
        if self.q().dst[&self.ctx.me.0].is_empty() {
            return Err(LocalError::new("asked for a normal broadcast in a round that sends nothing"));
        }
        self.ctx.log.draw(|| format!("{}'s normal broadcast in {}", self.ctx.me.0, self.rid), rng);
        Ok(N::make(self.body("nb", "")))
    }

    fn receive_message(&self, from: &Id, message: ProtocolMessage<Id, Self>) -> Result<Pay, ReceiveError<Id, Self>> {
        self.received(from, message.direct_message.body(), message.echo_broadcast.body(), message.normal_broadcast.body())
    }

    fn finalize(
        self,
        rng: &mut impl CryptoRngCore,
        payloads: BTreeMap<Id, Pay>,
        artifacts: BTreeMap<Id, D::Art>,
    ) -> Result<FinalizeOutcome<Id, MP<S>>, LocalError> {
        self.ctx.log.draw(|| format!("{}'s finalization of {}", self.ctx.me.0, self.rid), rng);
        let next = self.q().next[&self.ctx.me.0].clone();
        let rid = self.rid.clone();
        let mut ctx = self.ctx;
        let next = ctx.divert.take().unwrap_or(next);
        ctx.log.lock().unwrap().push(Ev::Fin {
            me: ctx.me.0.clone(),
            rid: rid.clone(),
            pay: payloads.into_iter().map(|(k, v)| (k.0, v)).collect(),
            art: artifacts.iter().map(|(k, v)| (k.0.clone(), D::show(v))).collect(),
        });
        ctx.trail.push(rid);
        if next == "RESULT" {
            Ok(FinalizeOutcome::Result(MResult { trail: ctx.trail, input: ctx.input }))
        } else {
            Ok(FinalizeOutcome::AnotherRound(mk_round::<S>(ctx, &next)))
        }
    }
}

impl<const S: usize, E: Slot, N: Slot, D: DmSlot> MRound<S, E, N, D> {
    fn received(&self, from: &Id, dm: Option<Body>, eb: Option<Body>, nb: Option<Body>) -> Result<Pay, ReceiveError<Id, Self>> {
        self.ctx.log.lock().unwrap().push(Ev::Recv {
            me: self.ctx.me.0.clone(),
            rid: self.rid.clone(),
            from: from.0.clone(),
            dm: dm.clone(),
            eb: eb.clone(),
            nb: nb.clone(),
        });
        self.ctx.log.pass(&[&from.0, "others"]);
        for b in [&dm, &eb, &nb].into_iter().flatten() {
            if b.c.starts_with("up") {
                return Err(ReceiveError::Unprovable(RemoteError::new("model: unprovable")));
            }
            if let Some(e) = self.ctx.cfg.stages[S].errs.get(&b.c) {
                return Err(ReceiveError::Protocol(MpError {
                    name: b.c.clone(),
                    this: e.this.clone(),
                    prev: e.prev.iter().map(|(r, ps)| (parse_rid(r).1, ps.clone())).collect(),
                    echos: e.echos.iter().map(|r| parse_rid(r).1).collect(),
                    _p: std::marker::PhantomData,
                }));
            }
        }
        let code = |b: Option<Body>| b.map(|b| b.c).unwrap_or_else(|| "none".into());
        Ok(Pay { rid: self.rid.clone(), from: from.0.clone(), dm: code(dm), eb: code(eb), nb: code(nb) })
    }
}

/// A round that generates no errors of its own.
#[derive(Debug)]
pub struct QRound<const S: usize, E: Slot, N: Slot, D: DmSlot>(MRound<S, E, N, D>);

impl<const S: usize, E: Slot, N: Slot, D: DmSlot> Round<Id> for QRound<S, E, N, D> {
    type Protocol = MP<S>;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = D;
    type NormalBroadcast = N;
    type EchoBroadcast = E;
    type Payload = Pay;
    type Artifact = D::Art;

    fn transition_info(&self) -> TransitionInfo {
        self.0.transition_info()
    }
    fn communication_info(&self) -> CommunicationInfo<Id> {
        self.0.communication_info()
    }
    fn make_direct_message(&self, rng: &mut impl CryptoRngCore, destination: &Id) -> Result<(D, D::Art), LocalError> {
        self.0.make_direct_message(rng, destination)
    }
    fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<E, LocalError> {
        self.0.make_echo_broadcast(rng)
    }
    fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<N, LocalError> {
        self.0.make_normal_broadcast(rng)
    }
    fn receive_message(&self, from: &Id, message: ProtocolMessage<Id, Self>) -> Result<Pay, ReceiveError<Id, Self>> {
        let (dm, eb, nb) =
            (message.direct_message.body(), message.echo_broadcast.body(), message.normal_broadcast.body());
        self.0.received(from, dm, eb, nb).map_err(|e| match e {
            ReceiveError::Local(e) => ReceiveError::Local(e),
            _ => ReceiveError::Unprovable(RemoteError::new("model: unprovable")),
        })
    }
    fn finalize(
        self,
        rng: &mut impl CryptoRngCore,
        payloads: BTreeMap<Id, Pay>,
        artifacts: BTreeMap<Id, D::Art>,
    ) -> Result<FinalizeOutcome<Id, MP<S>>, LocalError> {
        self.0.finalize(rng, payloads, artifacts)
    }
}

#[derive(Debug, Clone)]
pub struct MEntry<const S: usize> {
    pub cfg: Arc<Cfg>,
    pub log: Log,
    pub trail: Vec<String>,
    pub input: String,
}

impl<const S: usize> EntryPoint<Id> for MEntry<S> {
    type Protocol = MP<S>;
    fn entry_round_id() -> RoundId {
        RoundId::new(parse_rid(&get_cfg().stages[S].entry).1)
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, MP<S>>, LocalError> {
        self.log.draw(|| format!("{}'s entry point of stage {}", id.0, letter(S)), rng);
        self.log.rnds.lock().unwrap().push((id.0.clone(), shared_randomness.to_vec()));
        let entry = self.cfg.stages[S].entry.clone();
        let ctx = Ctx {
            cfg: self.cfg,
            me: id.clone(),
            log: self.log,
            trail: self.trail,
            input: format!("{}+{}:{}:{}", self.input, letter(S), id.0, fast::hex(&shared_randomness[..4])),
            rnd: shared_randomness.to_vec(),
            divert: None,
        };
        Ok(mk_round::<S>(ctx, &entry))
    }
}

/// What we need from a (possibly chained) protocol under test.
pub trait Proto: Protocol<Id, Result = MResult> + Debug + Sized + Serialize + DeserializeOwned {
    type EP: EntryPoint<Id, Protocol = Self>;
    fn ep(cfg: &Arc<Cfg>, log: &Log, trail: Vec<String>, input: String) -> Self::EP;
    /// shared data; `twist` makes the data of all stages foreign
    fn shared() -> Self::SharedData;
}

impl<const S: usize> Proto for MP<S> {
    type EP = MEntry<S>;
    fn ep(cfg: &Arc<Cfg>, log: &Log, trail: Vec<String>, input: String) -> MEntry<S> {
        MEntry { cfg: cfg.clone(), log: log.clone(), trail, input }
    }
    fn shared() -> Shared {
        Shared { token: shared_token(S) }
    }
}

macro_rules! chain {
    ($name:ident, $ep:ident, $join:ident, $p1:ty, $p2:ty) => {
        #[derive(Debug, Clone, Copy, Serialize, Deserialize)]
        pub struct $name;
        impl ChainedProtocol<Id> for $name {
            type Protocol1 = $p1;
            type Protocol2 = $p2;
        }
        impl ChainedMarker for $name {}
        #[derive(Debug, Clone)]
        pub struct $ep {
            pub cfg: Arc<Cfg>,
            pub log: Log,
            pub trail: Vec<String>,
            pub input: String,
        }
        impl ChainedMarker for $ep {}
        #[derive(Debug)]
        pub struct $join {
            cfg: Arc<Cfg>,
            log: Log,
        }
        impl ChainedSplit<Id> for $ep {
            type Protocol = $name;
            type EntryPoint = <$p1 as Proto>::EP;
            fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = $name>) {
                (
                    <$p1 as Proto>::ep(&self.cfg, &self.log, self.trail, self.input),
                    $join { cfg: self.cfg, log: self.log },
                )
            }
        }
        impl ChainedJoin<Id> for $join {
            type Protocol = $name;
            type EntryPoint = <$p2 as Proto>::EP;
            fn make_entry_point2(self, result: MResult) -> Self::EntryPoint {
                <$p2 as Proto>::ep(&self.cfg, &self.log, result.trail, result.input)
            }
        }
        impl Proto for $name {
            type EP = $ep;
            fn ep(cfg: &Arc<Cfg>, log: &Log, trail: Vec<String>, input: String) -> $ep {
                $ep { cfg: cfg.clone(), log: log.clone(), trail, input }
            }
            fn shared() -> Self::SharedData {
                ChainedSharedData { protocol1: <$p1 as Proto>::shared(), protocol2: <$p2 as Proto>::shared() }
            }
        }
    };
}

chain!(C2, C2Entry, C2Join, MP<0>, MP<1>);
chain!(CL, CLEntry, CLJoin, C2, MP<2>);
chain!(C12, C12Entry, C12Join, MP<1>, MP<2>);
chain!(CR, CREntry, CRJoin, MP<0>, C12);

/// Calls `$f::<P>` with the protocol type for the shape.
#[macro_export]
macro_rules! with_shape {
    ($shape:expr, $P:ident, $body:expr) => {
        match $shape {
            "single" => {
                type $P = $crate::model::MP<0>;
                $body
            }
            "chain2" => {
                type $P = $crate::model::C2;
                $body
            }
            "chainL" => {
                type $P = $crate::model::CL;
                $body
            }
            "chainR" => {
                type $P = $crate::model::CR;
                $body
            }
            other => panic!("unknown shape {other}"),
        }
    };
}
