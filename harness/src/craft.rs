//! Crafting of arbitrary signed message parts through the public API: a protocol with one round whose id,
//! payloads and destinations are arbitrary, plus JSON surgery whose locations are found by comparing messages.
use std::collections::{BTreeMap, BTreeSet};

use base64::Engine;
use manul::{
    protocol::*,
    session::{Message, RoundOutcome, Session, SessionId},
};
use rand_chacha::ChaCha20Rng;
use rand_core::{CryptoRngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    model::{no_artifact, no_message, Body},
    sp::{Fmt, Id, Json, Mode, Signer, REC, SP},
};

#[derive(Debug, Clone)]
pub enum CPay {
    Body(Body),
    /// does not decode as `Body` (or anything with content)
    Garb,
    /// any JSON; only usable with the JSON format
    Val(Value),
}

impl Serialize for CPay {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            CPay::Body(b) => b.serialize(s),
            CPay::Garb => ().serialize(s),
            CPay::Val(v) => v.serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for CPay {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Body::deserialize(d).map(CPay::Body)
    }
}

pub trait CSlot: 'static + Serialize + serde::de::DeserializeOwned + Send + Sync + std::fmt::Debug {
    fn mk(p: &Option<CPay>) -> Self;
}
impl CSlot for CPay {
    fn mk(p: &Option<CPay>) -> Self {
        p.clone().expect("payload")
    }
}
impl CSlot for NoMessage {
    fn mk(_p: &Option<CPay>) -> Self {
        no_message()
    }
}

#[derive(Debug)]
pub struct CP;
impl Protocol<Id> for CP {
    type Result = ();
    type SharedData = ();
    fn round_info(_round_id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        None
    }
}

#[derive(Debug, Clone)]
pub struct CRound<E, N, D> {
    pub id: RoundId,
    pub dst: BTreeSet<Id>,
    pub exp: BTreeSet<Id>,
    pub eb: Option<CPay>,
    pub nb: Option<CPay>,
    pub dm: Option<CPay>,
    pub _p: std::marker::PhantomData<fn() -> (E, N, D)>,
}

impl<E: CSlot, N: CSlot, D: CSlot> Round<Id> for CRound<E, N, D> {
    type Protocol = CP;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = D;
    type NormalBroadcast = N;
    type EchoBroadcast = E;
    type Payload = ();
    type Artifact = NoArtifact;
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo {
            id: self.id.clone(),
            parents: [].into(),
            siblings: [].into(),
            children: [].into(),
            may_produce_result: true,
        }
    }
    fn communication_info(&self) -> CommunicationInfo<Id> {
        CommunicationInfo {
            message_destinations: self.dst.clone(),
            expecting_messages_from: self.exp.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    fn make_direct_message(&self, _rng: &mut impl CryptoRngCore, _d: &Id) -> Result<(D, NoArtifact), LocalError> {
        Ok((D::mk(&self.dm), no_artifact()))
    }
    fn make_echo_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<E, LocalError> {
        Ok(E::mk(&self.eb))
    }
    fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<N, LocalError> {
        Ok(N::mk(&self.nb))
    }
    fn receive_message(&self, _from: &Id, _m: ProtocolMessage<Id, Self>) -> Result<(), ReceiveError<Id, Self>> {
        Ok(())
    }
    fn finalize(
        self,
        _rng: &mut impl CryptoRngCore,
        _p: BTreeMap<Id, ()>,
        _a: BTreeMap<Id, NoArtifact>,
    ) -> Result<FinalizeOutcome<Id, CP>, LocalError> {
        Ok(FinalizeOutcome::Result(()))
    }
}

#[derive(Debug, Clone)]
pub struct CEntry<E, N, D>(pub CRound<E, N, D>);
impl<E: CSlot, N: CSlot, D: CSlot> EntryPoint<Id> for CEntry<E, N, D> {
    type Protocol = CP;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(self, _rng: &mut impl CryptoRngCore, _r: &[u8], _id: &Id) -> Result<BoxedRound<Id, CP>, LocalError> {
        Ok(BoxedRound::new(self.0))
    }
}

pub fn rng(seed: u64) -> ChaCha20Rng {
    ChaCha20Rng::seed_from_u64(seed)
}

/// Session "S" is the session under test, "X" a foreign one.
pub fn sid<F: Fmt>(code: &str) -> SessionId {
    SessionId::from_seed::<SP<F>>(format!("verif-{code}").as_bytes())
}

pub type Kinds = BTreeMap<&'static str, String>;
pub const KINDS: [&str; 3] = ["dm", "eb", "nb"];

fn on<F: Fmt>(from: &Id, mode: Mode, s: &SessionId, rid: &RoundId, dest: &Id, p: &[CPay; 3]) -> Result<Value, String> {
    let round = CRound::<CPay, CPay, CPay> {
        id: rid.clone(),
        dst: [dest.clone()].into(),
        exp: [].into(),
        dm: Some(p[0].clone()),
        eb: Some(p[1].clone()),
        nb: Some(p[2].clone()),
        _p: Default::default(),
    };
    send::<F, _, _, _>(from, mode, s, round, dest)
}

fn off<F: Fmt>(from: &Id, mode: Mode, s: &SessionId, rid: &RoundId, dest: &Id) -> Result<Value, String> {
    let round = CRound::<NoMessage, NoMessage, NoMessage> {
        id: rid.clone(),
        dst: [dest.clone()].into(),
        exp: [].into(),
        dm: None,
        eb: None,
        nb: None,
        _p: Default::default(),
    };
    send::<F, _, _, _>(from, mode, s, round, dest)
}

fn send<F: Fmt, E: CSlot, N: CSlot, D: CSlot>(
    from: &Id,
    mode: Mode,
    s: &SessionId,
    round: CRound<E, N, D>,
    dest: &Id,
) -> Result<Value, String> {
    let mut r = rng(1);
    let session = Session::<CP, SP<F>>::new(&mut r, s.clone(), Signer::with_mode(from, mode), CEntry(round))
        .map_err(|e| format!("craft: {e:?}"))?;
    let (message, _artifact) = session.make_message(&mut r, dest).map_err(|e| format!("craft: {e:?}"))?;
    serde_json::to_value(&message).map_err(|e| e.to_string())
}

/// The paths of leaves at which two JSON values differ (same shape assumed, otherwise the common ancestor).
pub fn diff(a: &Value, b: &Value) -> Vec<Vec<String>> {
    fn go(a: &Value, b: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        if a == b {
            return;
        }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) if x.len() == y.len() && x.keys().all(|k| y.contains_key(k)) => {
                for k in x.keys() {
                    path.push(k.clone());
                    go(&x[k], &y[k], path, out);
                    path.pop();
                }
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for i in 0..x.len() {
                    path.push(i.to_string());
                    go(&x[i], &y[i], path, out);
                    path.pop();
                }
            }
            _ => out.push(path.clone()),
        }
    }
    let mut out = vec![];
    go(a, b, &mut vec![], &mut out);
    out
}

pub fn at<'a>(v: &'a Value, path: &[String]) -> &'a Value {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => &a[p.parse::<usize>().expect("index")],
            o => &o[p.as_str()],
        };
    }
    v
}
pub fn at_mut<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => &mut a[p.parse::<usize>().expect("index")],
            o => o.get_mut(p.as_str()).expect("path"),
        };
    }
    v
}

/// Replaces all string leaves equal to `from`.
pub fn replace_leaf(v: &mut Value, from: &str, to: &str) -> usize {
    match v {
        Value::String(s) if s == from => {
            *s = to.to_string();
            1
        }
        Value::Array(a) => a.iter_mut().map(|x| replace_leaf(x, from, to)).sum(),
        Value::Object(o) => o.values_mut().map(|x| replace_leaf(x, from, to)).sum(),
        _ => 0,
    }
}

/// Where things are in serialized messages; found by comparing messages that differ in one thing.
#[derive(Debug, Clone)]
pub struct Calib {
    pub kinds: Kinds,
    pub destination: String,
    /// within a part
    pub sig: Vec<String>,
    pub payload: Vec<String>,
    /// within a round id
    pub num: Vec<String>,
    pub echo: Vec<String>,
}

fn one(mut v: Vec<Vec<String>>, what: &str) -> Result<Vec<String>, String> {
    if v.len() == 1 {
        Ok(v.pop().unwrap())
    } else {
        Err(format!("calibration: {what}: {v:?}"))
    }
}

pub fn body(t: &str, c: &str) -> CPay {
    CPay::Body(Body { t: t.into(), c: c.into() })
}

pub fn calibrate() -> Result<Calib, String> {
    let (x, d, d2) = (Id::new("x"), Id::new("y"), Id::new("z"));
    let s = sid::<Json>("S");
    let r1 = RoundId::new(7);
    let base = [body("t", "1"), body("t", "2"), body("t", "3")];
    let m0 = on::<Json>(&x, Mode::Ok, &s, &r1, &d, &base)?;
    let mut kinds = Kinds::new();
    let mut sig = vec![];
    let mut payload = vec![];
    let bad = on::<Json>(&x, Mode::Bad, &s, &r1, &d, &base)?;
    let sigs = diff(&m0, &bad);
    for (i, k) in KINDS.iter().enumerate() {
        let mut p = base.clone();
        p[i] = body("t", "changed");
        let m1 = on::<Json>(&x, Mode::Ok, &s, &r1, &d, &p)?;
        let ds = diff(&m0, &m1);
        let key = ds.first().ok_or("calibration: kind")?[0].clone();
        if ds.iter().any(|p| p[0] != key) {
            return Err("calibration: one part changed, several differ".into());
        }
        sig = one(sigs.iter().filter(|p| p[0] == key).map(|p| p[1..].to_vec()).collect(), "signature")?;
        payload = one(ds.iter().map(|p| p[1..].to_vec()).filter(|p| *p != sig).collect(), "payload")?;
        kinds.insert(k, key);
    }
    let md = on::<Json>(&x, Mode::Ok, &s, &r1, &d2, &base)?;
    let destination = one(diff(&m0, &md), "destination")?[0].clone();
    let j = |r: &RoundId| serde_json::to_value(r).map_err(|e| e.to_string());
    let num = one(diff(&j(&r1)?, &j(&RoundId::new(8))?), "round number")?;
    // the echo round of our round
    let (_, echo_id) = donor::<Json>(&d, &s, &r1, &[(x.clone(), CPay::Garb)], &d2)?;
    let echo = one(diff(&j(&r1)?, &j(&echo_id)?), "echo flag")?;
    Ok(Calib { kinds, destination, sig, payload, num, echo })
}

/// The echo message of `id` to `dest`, after `id` received the given echo broadcasts (signed by their authors),
/// and the id of the echo round.
pub fn donor<F: Fmt>(
    id: &Id,
    s: &SessionId,
    rid: &RoundId,
    authors: &[(Id, CPay)],
    dest: &Id,
) -> Result<(Message<Id>, RoundId), String> {
    donor_many::<F>(id, s, rid, authors, std::slice::from_ref(dest))?.pop().ok_or_else(|| "donor: no messages".into())
}

/// The same, to several destinations.
pub fn donor_many<F: Fmt>(
    id: &Id,
    s: &SessionId,
    rid: &RoundId,
    authors: &[(Id, CPay)],
    dests: &[Id],
) -> Result<Vec<(Message<Id>, RoundId)>, String> {
    let er = |e: LocalError| format!("donor: {e:?}");
    let mut r = rng(2);
    let round = |me: bool, eb: CPay| CRound::<CPay, NoMessage, NoMessage> {
        id: rid.clone(),
        dst: if me { dests.iter().cloned().collect() } else { [id.clone()].into() },
        exp: if me { authors.iter().map(|a| a.0.clone()).collect() } else { [].into() },
        dm: None,
        eb: Some(eb),
        nb: None,
        _p: Default::default(),
    };
    let session =
        Session::<CP, SP<F>>::new(&mut r, s.clone(), Signer::new(id), CEntry(round(true, body("donor", "0")))).map_err(er)?;
    let mut accum = session.make_accumulator();
    for d in session.message_destinations() {
        let (_, art) = session.make_message(&mut r, d).map_err(er)?;
        session.add_artifact(&mut accum, art).map_err(er)?;
    }
    for (a, p) in authors {
        // an undecodable broadcast would be refused
        let p = match p {
            CPay::Garb => body("donor", "g"),
            p => p.clone(),
        };
        let asess = Session::<CP, SP<F>>::new(&mut r, s.clone(), Signer::new(a), CEntry(round(false, p))).map_err(er)?;
        let (m, _) = asess.make_message(&mut r, id).map_err(er)?;
        let v = session.preprocess_message(&mut accum, a, m).map_err(er)?.ok().ok_or("donor: rejected a valid message")?;
        let processed = session.process_message(v);
        session.add_processed_message(&mut accum, processed).map_err(er)?;
    }
    match session.finalize_round(&mut r, accum).map_err(er)? {
        RoundOutcome::AnotherRound { session, .. } => {
            let rid = session.round_id();
            dests.iter().map(|d| Ok((session.make_message(&mut r, d).map_err(er)?.0, rid.clone()))).collect()
        }
        RoundOutcome::Finished(_) => Err("donor: no echo round".into()),
    }
}

impl Calib {
    /// A round id: the number and the echo flag are put into a template with the right nesting.
    pub fn rid(&self, template: &RoundId, num: u8, echo: bool) -> RoundId {
        let mut v = serde_json::to_value(template).expect("serializable");
        *at_mut(&mut v, &self.num) = num.into();
        *at_mut(&mut v, &self.echo) = echo.into();
        serde_json::from_value(v).expect("a round id")
    }

    /// A signed message part of the given kind.
    pub fn part<F: Fmt>(
        &self,
        kind: &str,
        from: &Id,
        mode: Mode,
        s: &SessionId,
        rid: &RoundId,
        dest: &Id,
        p: Option<CPay>,
    ) -> Result<Value, String> {
        let m = match p {
            Some(p) => on::<F>(from, mode, s, rid, dest, &[p.clone(), p.clone(), p])?,
            None => off::<F>(from, mode, s, rid, dest)?,
        };
        Ok(m[self.kinds[kind].as_str()].clone())
    }

    /// A message part with a forged signature, `g` being "ok" or the kind of forgery.
    #[allow(clippy::too_many_arguments)]
    pub fn part_g<F: Fmt>(
        &self,
        kind: &str,
        from: &Id,
        g: &str,
        s: &str,
        rid: &RoundId,
        dest: &Id,
        p: Option<CPay>,
    ) -> Result<Value, String> {
        let session = sid::<F>(s);
        let mut part = self.part::<F>(kind, from, Mode::Ok, &session, rid, dest, p.clone())?;
        if g != "ok" {
            let sig = self.forged_sig::<F>(kind, from, g, s, rid, dest, p)?;
            // (if the forgery gives the proper signature, signatures do not bind something they have to,
            // and the message will be accepted where the specification refuses it)
            *at_mut(&mut part, &self.sig) = sig.into();
        }
        Ok(part)
    }

    #[allow(clippy::too_many_arguments)]
    fn forged_sig<F: Fmt>(
        &self,
        kind: &str,
        from: &Id,
        g: &str,
        s: &str,
        rid: &RoundId,
        dest: &Id,
        p: Option<CPay>,
    ) -> Result<String, String> {
        let session = sid::<F>(s);
        let sig = |part: Value| self.sig_of(&part);
        Ok(match g {
            "bad" => sig(self.part::<F>(kind, from, Mode::Bad, &session, rid, dest, p)?),
            "undes" => sig(self.part::<F>(kind, from, Mode::Undes, &session, rid, dest, p)?),
            "other" => {
                let other = Id::new(if from.0 == "c" { "b" } else { "c" });
                sig(self.part::<F>(kind, &other, Mode::Ok, &session, rid, dest, p)?)
            }
            "kind" => {
                let k2 = if kind == "nb" { "eb" } else { "nb" };
                sig(self.part::<F>(k2, from, Mode::Ok, &session, rid, dest, p)?)
            }
            "sess" => sig(self.part::<F>(kind, from, Mode::Ok, &sid::<F>("Y"), rid, dest, p)?),
            "round" => {
                let n = at(&serde_json::to_value(rid).expect("rid"), &self.num).as_u64().expect("round number") as u8;
                let e = at(&serde_json::to_value(rid).expect("rid"), &self.echo).as_bool().expect("echo flag");
                sig(self.part::<F>(kind, from, Mode::Ok, &session, &self.rid(rid, n.wrapping_add(1), e), dest, p)?)
            }
            "echoround" => {
                let n = at(&serde_json::to_value(rid).expect("rid"), &self.num).as_u64().expect("round number") as u8;
                let e = at(&serde_json::to_value(rid).expect("rid"), &self.echo).as_bool().expect("echo flag");
                sig(self.part::<F>(kind, from, Mode::Ok, &session, &self.rid(rid, n, !e), dest, p)?)
            }
            "tamper" => sig(self.part::<F>(kind, from, Mode::Ok, &session, rid, dest, Some(body("tampered", "t")))?),
            _ => return Err(format!("unknown forgery {g}")),
        })
    }

    pub fn message(&self, dest: &Id, dm: Value, eb: Value, nb: Value) -> Result<Message<Id>, String> {
        let mut o = serde_json::Map::new();
        o.insert(self.destination.clone(), serde_json::to_value(dest).expect("id"));
        o.insert(self.kinds["dm"].clone(), dm);
        o.insert(self.kinds["eb"].clone(), eb);
        o.insert(self.kinds["nb"].clone(), nb);
        serde_json::from_value(Value::Object(o)).map_err(|e| format!("assembled message: {e}"))
    }

    pub fn sig_of(&self, part: &Value) -> String {
        at(part, &self.sig).as_str().expect("signature is a string").to_string()
    }

    /// The payload of a part, if there is any.
    pub fn payload_bytes(&self, part: &Value) -> Option<Vec<u8>> {
        let s = match at_opt(part, &self.payload) {
            Some(Value::String(s)) => s.clone(),
            _ => return None,
        };
        decode_b64(&s)
    }

    /// An entry of an echo pack (JSON only).
    pub fn entry(
        &self,
        author: &Id,
        scode: &str,
        rid: &RoundId,
        kind: &str,
        p: CPay,
        g: &str,
    ) -> Result<(Value, Value), String> {
        let s = &sid::<Json>(scode);
        let donor_id = Id::new("zz-donor");
        let dest = Id::new("zz-dest");
        let (m, _) = donor::<Json>(&donor_id, s, rid, &[(author.clone(), p.clone())], &dest)?;
        let mv = serde_json::to_value(&m).map_err(|e| e.to_string())?;
        let bytes = self.payload_bytes(&mv[self.kinds["nb"].as_str()]).ok_or("no echo pack")?;
        let mut pack: Value = serde_json::from_slice(&bytes).map_err(|e| format!("echo pack: {e}"))?;
        let mut entry = {
            let arr = pairs_mut(&mut pack).ok_or("echo pack: no pairs")?;
            if arr.len() != 1 {
                return Err("echo pack: one entry expected".into());
            }
            arr[0][1].take()
        };
        let dummy = Id::new("zz-dummy");
        let good = self.part::<Json>("eb", author, Mode::Ok, s, rid, &dummy, Some(p.clone()))?;
        let good_sig = self.sig_of(&good);
        if kind != "eb" {
            // the hash of a part of another kind, signed by the author
            REC.with(|r| *r.borrow_mut() = Some(vec![]));
            let eb = self.part::<Json>("eb", author, Mode::Ok, s, rid, &dummy, Some(p.clone()))?;
            let other = self.part::<Json>(kind, author, Mode::Ok, s, rid, &dummy, Some(p.clone()))?;
            let rec = REC.with(|r| r.borrow_mut().take().unwrap_or_default());
            let hash_of = |part: &Value| -> Result<String, String> {
                // the digest signed in this part is the output recorded for an input that contains the part hash
                let sig_bytes = hex::decode(self.sig_of(part).trim_start_matches("0x")).map_err(|e| e.to_string())?;
                let sig: (Id, String) = serde_json::from_slice(&sig_bytes).map_err(|e| e.to_string())?;
                let (input, _) =
                    rec.iter().find(|(_, out)| fast::hex(out) == sig.1).ok_or("signed digest not recorded")?;
                let (_, h) = rec
                    .iter()
                    .find(|(_, out)| fast::hex(out) != sig.1 && input.windows(out.len()).any(|w| w == &out[..]))
                    .ok_or("part hash not recorded")?;
                Ok(fast::hex(&h))
            };
            let (h0, h1) = (hash_of(&eb)?, hash_of(&other)?);
            let n = replace_leaf(&mut entry, &h0, &h1) + replace_leaf(&mut entry, &format!("0x{h0}"), &format!("0x{h1}"));
            let m = replace_leaf(&mut entry, &good_sig, &self.sig_of(&other));
            if n != 1 || m != 1 {
                return Err(format!("echo pack entry surgery: {n} {m} {entry}"));
            }
        } else if g != "ok" {
            let sig = self.forged_sig::<Json>("eb", author, g, scode, rid, &dummy, Some(p))?;
            if replace_leaf(&mut entry, &good_sig, &sig) != 1 {
                return Err("echo pack entry surgery: signature".into());
            }
        }
        Ok((pack, entry))
    }

    /// An echo pack with the given entries (JSON only), to be used as the payload of a normal broadcast.
    pub fn pack(&self, entries: &BTreeMap<Id, (Value, Value)>) -> Result<Value, String> {
        let mut shell = match entries.values().next() {
            Some((shell, _)) => shell.clone(),
            None => {
                self.entry(&Id::new("x"), "S", &RoundId::new(1), "eb", body("t", "c"), "ok")?.0
            }
        };
        let arr = pairs_mut(&mut shell).ok_or("echo pack: no pairs")?;
        *arr = entries
            .iter()
            .map(|(id, (_, e))| Value::Array(vec![serde_json::to_value(id).expect("id"), e.clone()]))
            .collect();
        Ok(shell)
    }
}

fn at_opt<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            o => o.get(p.as_str())?,
        };
    }
    Some(v)
}

pub fn decode_b64(s: &str) -> Option<Vec<u8>> {
    use base64::engine::general_purpose as gp;
    for e in [gp::STANDARD, gp::STANDARD_NO_PAD, gp::URL_SAFE, gp::URL_SAFE_NO_PAD] {
        if let Ok(v) = e.decode(s) {
            return Some(v);
        }
    }
    None
}

/// The first array of pairs (or the emptied one) inside a value.
fn pairs_mut(v: &mut Value) -> Option<&mut Vec<Value>> {
    match v {
        Value::Array(a) => Some(a),
        Value::Object(o) => o.values_mut().find_map(pairs_mut),
        _ => None,
    }
}

