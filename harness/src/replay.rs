//! Replays behaviours of the TLA+ specification on real sessions.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
};

use manul::{
    protocol::RoundId,
    session::{Message, SessionId, SessionOutcome, SessionReport},
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    craft::{body, donor, donor_many, sid, CPay, Calib, KINDS},
    exec::{ref_run, Node, RefRun, Step},
    model::{map_or_empty, parse_rid, set_cfg, shared_token, split_echo, tag, Body, Cfg, Ev, LogInner, Proto, Seen, StageCfg, VLOG},
    sp::{Fmt, Id, Mode, SP},
};

/*----------------------------- what TLC prints -----------------------------*/

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct PartS {
    pub s: String,
    pub r: String,
    pub g: String,
    pub p: String,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct EntS {
    pub g: String,
    pub s: String,
    pub r: String,
    pub k: String,
    pub v: String,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct MsgS {
    pub from: String,
    pub dm: PartS,
    pub eb: PartS,
    pub nb: PartS,
    #[serde(deserialize_with = "map_or_empty")]
    pub em: BTreeMap<String, EntS>,
}
impl MsgS {
    pub fn part(&self, k: &str) -> &PartS {
        match k {
            "dm" => &self.dm,
            "eb" => &self.eb,
            _ => &self.nb,
        }
    }
}

#[derive(Debug, Clone, Deserialize)]
pub struct Hdr {
    pub cfg: usize,
    pub me: String,
    pub shape: String,
    pub stages: Vec<StageCfg>,
    pub menu: Vec<MsgS>,
}

#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
pub struct PayS {
    pub dm: String,
    pub eb: String,
    pub nb: String,
}

#[derive(Debug, Clone, Deserialize)]
pub struct FinS {
    pub none: bool,
    #[serde(default)]
    pub rid: String,
    #[serde(default, deserialize_with = "map_or_empty")]
    pub pay: BTreeMap<String, PayS>,
    #[serde(default)]
    pub art: BTreeSet<String>,
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
pub struct SeesS {
    pub e: String,
    pub r: String,
    #[serde(deserialize_with = "map_or_empty")]
    pub this: BTreeMap<String, String>,
    #[serde(deserialize_with = "map_or_empty")]
    pub prev: BTreeMap<String, Value>,
    #[serde(deserialize_with = "map_or_empty")]
    pub echos: BTreeMap<String, Value>,
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
pub struct RepS {
    pub out: String,
    #[serde(deserialize_with = "map_or_empty")]
    pub prov: BTreeMap<String, SeesS>,
    pub unprov: BTreeSet<String>,
    #[serde(deserialize_with = "map_or_empty")]
    pub missing: BTreeMap<String, BTreeSet<String>>,
}

#[derive(Debug, Clone)]
pub enum Op {
    D { j: usize, o: String, cf: String },
    A { from: String, v: String, cf: String, amb: bool },
    Q { froms: Vec<String>, cf: String, amb: bool },
    F { next: String, queued: usize, dst: BTreeSet<String>, fin: FinS, cf: String },
}

#[derive(Debug, Clone)]
pub struct Line {
    pub g: usize,
    pub ops: Vec<Op>,
    pub rep: RepS,
    pub cf: String,
    pub raw: String,
}

fn op(v: &Value) -> Result<Op, String> {
    let s = |i: usize| v[i].as_str().map(|x| x.to_string()).ok_or_else(|| format!("bad operation {v}"));
    let b = |i: usize| v[i].as_bool().ok_or_else(|| format!("bad operation {v}"));
    let j = |i: usize| v[i].clone();
    Ok(match s(0)?.as_str() {
        "D" => Op::D { j: v[1].as_u64().ok_or("index")? as usize, o: s(2)?, cf: s(3)? },
        "A" => Op::A { from: s(1)?, v: s(2)?, cf: s(3)?, amb: b(4)? },
        "Q" => Op::Q { froms: serde_json::from_value(j(1)).map_err(|e| e.to_string())?, cf: s(2)?, amb: b(3)? },
        "F" => Op::F {
            next: s(1)?,
            queued: v[2].as_u64().ok_or("number")? as usize,
            dst: serde_json::from_value(j(3)).map_err(|e| e.to_string())?,
            fin: serde_json::from_value(j(4)).map_err(|e| format!("{e}: {v}"))?,
            cf: s(5)?,
        },
        o => return Err(format!("unknown operation {o}")),
    })
}

pub fn parse_line(v: Value, raw: String) -> Result<Line, String> {
    let e = |e: serde_json::Error| e.to_string();
    Ok(Line {
        g: v["g"].as_u64().ok_or("g")? as usize,
        ops: v["h"].as_array().ok_or("h")?.iter().map(op).collect::<Result<_, _>>()?,
        rep: serde_json::from_value(v["r"].clone()).map_err(|x| format!("{x}: {}", v["r"]))?,
        cf: serde_json::from_value(v["cf"].clone()).map_err(e)?,
        raw,
    })
}

/*-------------------------------- divergences -------------------------------*/

#[derive(Debug, Clone, Serialize)]
pub struct Div {
    pub aspect: &'static str,
    pub at: String,
    pub detail: String,
}

pub struct PanicInfo {
    pub loc: String,
    pub msg: String,
}
thread_local! {
    pub static PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { loc, msg }));
    }));
}
/// Panics in the library are divergences; panics elsewhere are errors of the tool.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let p = PANIC.with(|p| p.borrow_mut().take());
            let (loc, msg) = p.map(|p| (p.loc, p.msg)).unwrap_or_default();
            let text = format!("panic at {loc}: {msg}");
            if loc.contains("verif") && loc.contains("harness") || loc.starts_with("src/") {
                Err(Err(text))
            } else {
                Err(Ok(text))
            }
        }
    }
}

/*------------------------------ materialisation -----------------------------*/

#[derive(Clone)]
pub struct Mat {
    pub from: Id,
    pub msg: Message<Id>,
}

pub struct World<F: Fmt> {
    pub hdr: Hdr,
    pub cfg: Arc<Cfg>,
    pub calib: Arc<Calib>,
    pub rr: RefRun,
    pub sid: SessionId,
    pub mats: Vec<Option<Mat>>,
    pub _p: std::marker::PhantomData<fn() -> F>,
}

pub fn mk_rid(calib: &Calib, templates: &BTreeMap<usize, RoundId>, rid: &str) -> Result<RoundId, String> {
    let (base, echo) = split_echo(rid);
    let (stage, num) = parse_rid(base);
    let t = templates.get(&stage).ok_or(format!("stage of {rid} was not reached in the reference run"))?;
    Ok(calib.rid(t, num, echo))
}

/// `Ok(None)`: cannot be made in this wire format.
pub fn materialise<F: Fmt>(calib: &Calib, rr: &RefRun, m: &MsgS, me: &Id) -> Result<Option<Mat>, String> {
    let from = Id::new(&m.from);
    let uniform = KINDS.iter().all(|k| m.part(k).s == "S" && m.part(k).g == "ok" && m.part(k).r == m.dm.r);
    let (base, echo) = split_echo(&m.dm.r);
    if uniform && echo && m.nb.p == "echo" && m.dm.p == "none" && m.eb.p == "none" {
        let normal = |e: &EntS| e.g == "ok" && e.s == "S" && e.k == "eb" && e.r == base;
        if m.em.values().all(normal) && !m.em.contains_key(&m.from) {
            let rid = mk_rid(calib, &rr.templates, base)?;
            let authors: Vec<_> =
                m.em.iter().map(|(a, e)| (Id::new(a), body(&tag(a, base, "eb", ""), &e.v))).collect();
            let (msg, _) = donor::<F>(&from, &sid::<F>("S"), &rid, &authors, me)?;
            return Ok(Some(Mat { from, msg }));
        }
    }
    let mut parts: Vec<Value> = vec![];
    for k in KINDS {
        let p = m.part(k);
        let rid = mk_rid(calib, &rr.templates, &p.r)?;
        let pay = match p.p.as_str() {
            "none" => None,
            "garb" => Some(CPay::Garb),
            "echo" => {
                if !F::JSON {
                    return Ok(None);
                }
                let mut entries = BTreeMap::new();
                for (a, e) in &m.em {
                    let erid = mk_rid(calib, &rr.templates, &e.r)?;
                    let b = body(&tag(a, base, "eb", ""), &e.v);
                    entries.insert(Id::new(a), calib.entry(&Id::new(a), &e.s, &erid, &e.k, b, &e.g)?);
                }
                Some(CPay::Val(calib.pack(&entries)?))
            }
            c => Some(body(&tag(&m.from, base, k, &me.0), c)),
        };
        parts.push(calib.part_g::<F>(k, &from, &p.g, &p.s, &rid, me, pay)?);
    }
    let mut it = parts.into_iter();
    let (dm, eb, nb) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    Ok(Some(Mat { msg: calib.message(me, dm, eb, nb)?, from }))
}

impl<F: Fmt> World<F> {
    pub fn new<P: Proto>(hdr: &Hdr, calib: &Arc<Calib>) -> Result<Self, String> {
        let cfg = Arc::new(Cfg { shape: hdr.shape.clone(), stages: hdr.stages.clone() });
        set_cfg(&cfg);
        let s = sid::<F>("S");
        let rr = ref_run::<P, F>(&cfg, &s);
        let me = Id::new(&hdr.me);
        let mats = hdr
            .menu
            .iter()
            .map(|m| materialise::<F>(calib, &rr, m, &me).map_err(|e| format!("{e}: {m:?}")))
            .collect::<Result<_, _>>()
            .map_err(|e: String| if rr.problems.is_empty() { e } else { format!("HONEST {:?}; {e}", rr.problems) })?;
        Ok(World { hdr: hdr.clone(), cfg, calib: calib.clone(), rr, sid: s, mats, _p: Default::default() })
    }
    pub fn rid(&self, r: &str) -> Result<RoundId, String> {
        mk_rid(&self.calib, &self.rr.templates, r)
    }

    /// What `me` has to send to `dest` in the main round `rid`.
    pub fn honest_main(&self, me: &str, rid: &str, dest: &str) -> Result<Value, String> {
        let (stage, _) = parse_rid(rid);
        let q = &self.cfg.stages[stage].rounds[rid];
        let mut parts = vec![];
        for (k, on) in [("dm", q.dm), ("eb", q.eb), ("nb", q.nb)] {
            let pay = on.then(|| body(&tag(me, rid, k, dest), "ok0"));
            parts.push(self.calib.part::<F>(k, &Id::new(me), Mode::Ok, &self.sid, &self.rid(rid)?, &Id::new(dest), pay)?);
        }
        let mut it = parts.into_iter();
        let m = self.calib.message(&Id::new(dest), it.next().unwrap(), it.next().unwrap(), it.next().unwrap())?;
        serde_json::to_value(&m).map_err(|e| e.to_string())
    }

    /// What `me` has to send to `dest` in the echo round of `rid`, having received the given broadcasts.
    pub fn honest_echo(&self, me: &str, rid: &str, dest: &str, got: &BTreeMap<String, String>) -> Result<Value, String> {
        let authors: Vec<_> = got.iter().map(|(a, c)| (Id::new(a), body(&tag(a, rid, "eb", ""), c))).collect();
        let (m, _) = donor::<F>(&Id::new(me), &self.sid, &self.rid(rid)?, &authors, &Id::new(dest))?;
        serde_json::to_value(&m).map_err(|e| e.to_string())
    }

    /// The same to several destinations.
    pub fn honest_echoes(&self, me: &str, rid: &str, dests: &[String], got: &BTreeMap<String, String>) -> Result<Vec<Value>, String> {
        let authors: Vec<_> = got.iter().map(|(a, c)| (Id::new(a), body(&tag(a, rid, "eb", ""), c))).collect();
        let ids: Vec<_> = dests.iter().map(|d| Id::new(d)).collect();
        let ms = donor_many::<F>(&Id::new(me), &self.sid, &self.rid(rid)?, &authors, &ids)?;
        ms.iter().map(|(m, _)| serde_json::to_value(m).map_err(|e| e.to_string())).collect()
    }
}

/*---------------------------------- replay ---------------------------------*/

pub type OutCache = HashMap<(String, String, String), Value>;

pub struct Run<'w, P: Proto, F: Fmt> {
    pub w: &'w World<F>,
    pub n: Node<P, F>,
    pub divs: Vec<Div>,
    pub at: String,
    log_pos: usize,
    pub trail: Vec<String>,
    /// contents of the echo broadcasts accepted in the current main round
    pub got: BTreeMap<String, String>,
    flight: BTreeMap<String, usize>,
    cached: BTreeMap<(String, String), usize>,
    pub rid: String,
    pub done: Option<SessionReport<P, SP<F>>>,
}

pub enum Stop {
    /// the execution cannot be continued
    Diverged,
    /// not possible in this wire format
    Skip,
    Tool(String),
}

impl<'w, P: Proto, F: Fmt> Run<'w, P, F> {
    pub fn div(&mut self, aspect: &'static str, detail: String) {
        self.divs.push(Div { aspect, at: self.at.clone(), detail });
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, aspect: &'static str, what: &str, want: T, got: T) {
        if want != got {
            self.div(aspect, format!("{what}: specified {want:?}, got {got:?}"));
        }
    }
    fn new_events(&mut self) -> Vec<Ev> {
        let log = self.n.log.lock().unwrap();
        let v = log[self.log_pos..].to_vec();
        drop(log);
        self.log_pos += v.len();
        v
    }

    fn expect_recv(&mut self, js: &[usize]) {
        let (base, echo) = split_echo(&self.rid);
        let base = base.to_string();
        let mut want = vec![];
        if !echo {
            let q = &self.w.cfg.stages[parse_rid(&base).0].rounds[&base];
            for j in js {
                let m = &self.w.hdr.menu[*j];
                let fine = |k: &str, on: bool| {
                    let p = &m.part(k).p;
                    if on {
                        p != "none" && p != "garb" && p != "echo"
                    } else {
                        p == "none"
                    }
                };
                if fine("dm", q.dm) && fine("eb", q.eb) && fine("nb", q.nb) {
                    let b = |k: &str, on: bool| {
                        on.then(|| Body { t: tag(&m.from, &base, k, &self.w.hdr.me), c: m.part(k).p.clone() })
                    };
                    want.push(Ev::Recv {
                        me: self.w.hdr.me.clone(),
                        rid: base.clone(),
                        from: m.from.clone(),
                        dm: b("dm", q.dm),
                        eb: b("eb", q.eb),
                        nb: b("nb", q.nb),
                    });
                }
            }
        }
        let mut got = self.new_events();
        let key = |e: &Ev| format!("{e:?}");
        want.sort_by_key(key);
        got.sort_by_key(key);
        self.eq("recv", "messages given to the protocol", want, got);
    }

    fn check_out(&mut self, dst: &BTreeSet<String>, cache: &mut OutCache) -> Result<(), Stop> {
        let got = self.n.destinations();
        self.eq("dest", "message destinations", dst.clone(), got);
        let (base, echo) = split_echo(&self.rid);
        let (base, me) = (base.to_string(), self.w.hdr.me.clone());
        let out = std::mem::take(&mut self.n.out);
        for (d, m) in &out {
            if !dst.contains(&d.0) {
                continue;
            }
            let key = (self.rid.clone(), d.0.clone(), if echo { format!("{:?}", self.got) } else { String::new() });
            if !cache.contains_key(&key) {
                let v = if echo {
                    self.w.honest_echo(&me, &base, &d.0, &self.got)
                } else {
                    self.w.honest_main(&me, &base, &d.0)
                };
                cache.insert(key.clone(), v.map_err(Stop::Tool)?);
            }
            let got = serde_json::to_value(m).map_err(|e| Stop::Tool(e.to_string()))?;
            if cache[&key] != got {
                self.div("outgoing", format!("message to {}: specified {}, got {}", d.0, cache[&key], got));
            }
        }
        self.n.out = out;
        Ok(())
    }

    fn check_cf(&mut self, want: &str) {
        if !want.is_empty() {
            let got = self.n.can_finalize();
            self.eq("cf", "can be finalized", want, got);
        }
    }

    pub fn start(w: &'w World<F>, cache: &mut OutCache) -> Result<Self, (Vec<Div>, Stop)> {
        set_cfg(&w.cfg);
        let n = match Node::<P, F>::start(&w.cfg, &w.hdr.me, &w.sid) {
            Ok(n) => n,
            Err(e) => {
                let d = Div { aspect: "local", at: "start".into(), detail: format!("session could not be created: {e:?}") };
                return Err((vec![d], Stop::Diverged));
            }
        };
        let rid = w.cfg.stages[0].entry.clone();
        let dst = w.cfg.stages[0].rounds[&rid].dst[&w.hdr.me].clone();
        let mut r = Run {
            w,
            n,
            divs: vec![],
            at: "start".into(),
            log_pos: 0,
            trail: vec![],
            got: BTreeMap::new(),
            flight: BTreeMap::new(),
            cached: BTreeMap::new(),
            rid,
            done: None,
        };
        let first = r.w.rid(&r.rid).map_err(|e| (vec![], Stop::Tool(e)))?;
        let actual = r.n.round_id();
        r.eq("next", "first round id", first, actual);
        let evs = r.new_events();
        let want = vec![Ev::New { me: w.hdr.me.clone(), rid: r.rid.clone() }];
        r.eq("next", "round objects created", want, evs);
        match r.check_out(&dst, cache) {
            Ok(()) => Ok(r),
            Err(s) => Err((r.divs, s)),
        }
    }

    pub fn step(&mut self, op: &Op, cache: &mut OutCache) -> Result<(), Stop> {
        match op {
            Op::D { j, o, cf } => {
                let j = j - 1;
                let Some(mat) = self.w.mats[j].clone() else { return Err(Stop::Skip) };
                self.at = format!("delivery of {}", serde_json::to_string(&self.w.hdr.menu[j]).unwrap_or_default());
                match self.n.deliver(&mat.from, mat.msg) {
                    Ok(got) => {
                        self.eq("out", "outcome", o.as_str(), got);
                        match got {
                            "P" => {
                                self.flight.insert(mat.from.0.clone(), j);
                            }
                            "C" => {
                                self.cached.insert((mat.from.0.clone(), self.w.hdr.menu[j].dm.r.clone()), j);
                            }
                            _ => {}
                        }
                    }
                    Err(e) => {
                        self.div("local", format!("preprocess_message: {e:?}"));
                        return Err(Stop::Diverged);
                    }
                }
                let evs = self.new_events();
                self.eq("recv", "messages given to the protocol", vec![], evs);
                self.check_cf(cf);
            }
            Op::A { from, v, cf, .. } => {
                self.at = format!("processing of the message from {from} ({v})");
                let Some(j) = self.flight.remove(from) else {
                    self.div("out", "the message was not accepted for processing".into());
                    return Err(Stop::Diverged);
                };
                if let Err(e) = self.n.add(from) {
                    self.div("local", format!("add_processed_message: {e:?}"));
                    return Err(Stop::Diverged);
                }
                if v == "ok" && !self.rid.ends_with('e') && self.w.hdr.menu[j].eb.p != "none" {
                    self.got.insert(from.clone(), self.w.hdr.menu[j].eb.p.clone());
                }
                self.expect_recv(&[j]);
                self.check_cf(cf);
            }
            Op::Q { froms, cf, .. } => {
                self.at = format!("processing of cached messages from {froms:?}");
                let mut js = vec![];
                for f in froms {
                    match self.cached.remove(&(f.clone(), self.rid.clone())) {
                        Some(j) => js.push(j),
                        None => {
                            self.div("out", format!("a message from {f} was not cached"));
                            return Err(Stop::Diverged);
                        }
                    }
                }
                if let Err(e) = self.n.process_queue() {
                    self.div("local", format!("cached messages: {e:?}"));
                    return Err(Stop::Diverged);
                }
                self.expect_recv(&js);
                let (base, echo) = split_echo(&self.rid);
                if !echo {
                    // those that were fine become part of what is echoed
                    let q = &self.w.cfg.stages[parse_rid(base).0].rounds[base];
                    for j in js {
                        let m = &self.w.hdr.menu[j];
                        let fine = KINDS.iter().all(|k| {
                            let on = match *k {
                                "dm" => q.dm,
                                "eb" => q.eb,
                                _ => q.nb,
                            };
                            let p = &m.part(k).p;
                            (on && p.starts_with("ok")) || (!on && p == "none")
                        });
                        if fine && q.eb {
                            self.got.insert(m.from.clone(), m.eb.p.clone());
                        }
                    }
                }
                self.check_cf(cf);
            }
            Op::F { next, queued, dst, fin, cf } => {
                self.at = format!("finalization of {}", self.rid);
                let res = self.n.finalize();
                let mut evs = self.new_events();
                if !fin.none {
                    let q = &self.w.cfg.stages[parse_rid(&fin.rid).0].rounds[&fin.rid];
                    let dm = q.dm;
                    let me = self.w.hdr.me.clone();
                    match evs.first() {
                        Some(Ev::Fin { me: m, rid, pay, art }) => {
                            let (m, rid, pay, art) = (m.clone(), rid.clone(), pay.clone(), art.clone());
                            self.eq("next", "round finalized", (me, fin.rid.clone()), (m, rid));
                            let want: BTreeMap<String, _> = fin
                                .pay
                                .iter()
                                .map(|(f, p)| {
                                    let p = crate::model::Pay {
                                        rid: fin.rid.clone(),
                                        from: f.clone(),
                                        dm: p.dm.clone(),
                                        eb: p.eb.clone(),
                                        nb: p.nb.clone(),
                                    };
                                    (f.clone(), p)
                                })
                                .collect();
                            self.eq("pay", "payloads in finalize()", want, pay);
                            let want: BTreeMap<String, String> = fin
                                .art
                                .iter()
                                .map(|d| (d.clone(), if dm { format!("{}>{}", fin.rid, d) } else { "-".into() }))
                                .collect();
                            self.eq("art", "artifacts in finalize()", want, art);
                            evs.remove(0);
                        }
                        other => {
                            let d = format!("the protocol's round was not finalized: {other:?}");
                            self.div("next", d);
                        }
                    }
                    self.trail.push(fin.rid.clone());
                }
                let is_echo = next.ends_with('e');
                let want_new = if is_echo || next == "RESULT" {
                    vec![]
                } else if next == "LOCAL" {
                    evs.clear();
                    vec![]
                } else {
                    vec![Ev::New { me: self.w.hdr.me.clone(), rid: next.clone() }]
                };
                self.eq("next", "protocol calls when finalizing", want_new, evs);
                match (next.as_str(), res) {
                    ("LOCAL", Err(_)) => {}
                    ("LOCAL", Ok(_)) => self.div("next", "an undeclared transition was made".into()),
                    (_, Err(e)) => {
                        self.div("local", format!("finalize_round: {e:?}"));
                        return Err(Stop::Diverged);
                    }
                    ("RESULT", Ok(Step::Done(rep))) => {
                        self.done = Some(rep);
                    }
                    ("RESULT", Ok(Step::Next(_))) => {
                        let rid = self.n.round_id();
                        self.div("next", format!("went to {rid:?}, but the protocol has the result"));
                        return Err(Stop::Diverged);
                    }
                    (_, Ok(Step::Done(_))) => {
                        self.div("next", format!("finished, but the protocol goes on to {next}"));
                        return Err(Stop::Diverged);
                    }
                    (_, Ok(Step::Next(n))) => {
                        if !is_echo {
                            self.got.clear();
                        }
                        self.rid = next.clone();
                        self.flight.clear();
                        let want = self.w.rid(next).map_err(Stop::Tool)?;
                        let got = self.n.round_id();
                        self.eq("next", "round id", want, got);
                        self.eq("queue", "cached messages delivered", *queued, n);
                        self.check_out(dst, cache)?;
                        self.check_cf(cf);
                    }
                }
            }
        }
        Ok(())
    }
}

/// Checks a session report against the specified one.
pub fn check_report<P: Proto, F: Fmt>(
    rep: &SessionReport<P, SP<F>>,
    want: &RepS,
    rid_of: &dyn Fn(&str) -> Result<RoundId, String>,
    me: &str,
    trail: &[String],
    rnd: &[u8],
    divs: &mut Vec<Div>,
    at: &str,
) -> Result<(), String> {
    let mut div = |aspect: &'static str, detail: String| divs.push(Div { aspect, at: at.to_string(), detail });
    let got = match &rep.outcome {
        SessionOutcome::Result(r) => {
            if want.out == "R" {
                if r.trail != trail {
                    div("result", format!("rounds executed according to the result: {:?}, specified {:?}", r.trail, trail));
                }
                // the stages of the chain, each given the result of the previous one
                let mut stages: Vec<char> = trail.iter().filter_map(|r| r.chars().next()).collect();
                stages.dedup();
                let b = rnd;
                let want_input =
                    stages.iter().fold("in".to_string(), |a, s| format!("{a}+{s}:{me}:{}", fast::hex(&b[..4])));
                if r.input != want_input {
                    div("result", format!("inputs of the stages: {}, specified {}", r.input, want_input));
                }
            }
            "R"
        }
        SessionOutcome::NotEnoughMessages => "N",
        SessionOutcome::Terminated => "T",
    };
    if got != want.out {
        div("outcome", format!("specified {}, got {}", want.out, got));
    }
    let set = |it: Vec<&Id>| it.into_iter().map(|x| x.0.clone()).collect::<BTreeSet<_>>();
    let unprov = set(rep.unprovable_errors.keys().collect());
    if unprov != want.unprov {
        div("unprov", format!("unprovable errors: specified {:?}, got {:?}", want.unprov, unprov));
    }
    let prov = set(rep.provable_errors.keys().collect());
    let wprov: BTreeSet<_> = want.prov.keys().cloned().collect();
    if prov != wprov {
        div("prov", format!("provable errors: specified {wprov:?}, got {prov:?}"));
    }
    let mut wmiss = BTreeMap::new();
    for (r, ids) in &want.missing {
        wmiss.insert(rid_of(r)?, ids.clone());
    }
    let miss: BTreeMap<_, BTreeSet<String>> =
        rep.missing_messages.iter().map(|(r, ids)| (r.clone(), ids.iter().map(|x| x.0.clone()).collect())).collect();
    if miss != wmiss {
        div("missing", format!("missing messages: specified {:?}, got {:?}", want.missing, miss));
    }
    for (id, ev) in &rep.provable_errors {
        if ev.guilty_party() != id {
            div("guilty", format!("evidence under {id:?} names {:?}", ev.guilty_party()));
        }
        let shared = P::shared();
        VLOG.with(|v| v.borrow_mut().clear());
        if let Err(e) = ev.verify(&shared) {
            div("verify", format!("evidence against {id:?} ({}) does not verify: {e:?}", ev.description()));
            continue;
        }
        let seen = VLOG.with(|v| std::mem::take(&mut *v.borrow_mut()));
        let Some(w) = want.prov.get(&id.0) else { continue };
        let want_seen = if w.e.is_empty() { vec![] } else { vec![want_seen(w, &id.0, me, rnd)?] };
        if seen != want_seen {
            div("sees", format!("evidence against {id:?}: specified to see {want_seen:?}, saw {seen:?}"));
        }
        // the wire format
        match F::ser(ev).map_err(|e| format!("{e:?}")).and_then(|b| {
            F::de::<manul::session::Evidence<P, SP<F>>>(&b).map(|e| (b, e))
        }) {
            Err(e) => div("verify", format!("evidence against {id:?} does not survive the wire format: {e}")),
            Ok((b, ev2)) => {
                if let Err(e) = ev2.verify(&shared) {
                    div("verify", format!("evidence against {id:?} does not verify after the wire format: {e:?}"));
                }
                let seen2 = VLOG.with(|v| std::mem::take(&mut *v.borrow_mut()));
                if seen2 != want_seen && seen == want_seen {
                    div("sees", format!("evidence against {id:?} sees something else after the wire format: {seen2:?}"));
                }
                if ev2.guilty_party() != id || F::ser(&ev2).map_err(|e| format!("{e:?}"))? != b {
                    div("verify", format!("evidence against {id:?} is changed by the wire format"));
                }
            }
        }
    }
    Ok(())
}

fn want_seen(w: &SeesS, guilty: &str, me: &str, rnd: &[u8]) -> Result<Seen, String> {
    let (stage, _) = parse_rid(&w.r);
    let codes = |v: &Value| -> Result<BTreeMap<String, String>, String> {
        if v.as_array().is_some_and(|a| a.is_empty()) {
            return Ok(BTreeMap::new());
        }
        serde_json::from_value(v.clone()).map_err(|e| e.to_string())
    };
    let parts = |r: &str, m: BTreeMap<String, String>| -> BTreeMap<String, Body> {
        m.into_iter()
            .filter(|(_, c)| c != "none")
            .map(|(k, c)| {
                let b = Body { t: tag(guilty, r, &k, me), c };
                (k, b)
            })
            .collect()
    };
    let mut prev = BTreeMap::new();
    for (r, v) in &w.prev {
        prev.insert(r.clone(), parts(r, codes(v)?));
    }
    let mut echos = BTreeMap::new();
    for (r, v) in &w.echos {
        let m = codes(v)?;
        echos.insert(r.clone(), m.into_iter().map(|(a, c)| (a.clone(), Body { t: tag(&a, r, "eb", ""), c })).collect());
    }
    Ok(Seen {
        stage,
        rid: w.r.clone(),
        from: Id::new(guilty),
        rnd: rnd.to_vec(),
        shared: shared_token(stage),
        err: w.e.clone(),
        this: parts(&w.r, w.this.clone()),
        prev,
        echos,
        unexpected: vec![],
    })
}

pub enum LineRes {
    Same,
    Skipped,
    /// the divergences, and whether the line has a step with several allowed results
    Diverged(Vec<Div>),
    Tool(String),
}

pub fn run_line<P: Proto, F: Fmt>(w: &World<F>, line: &Line, salt: usize, cache: &mut OutCache) -> LineRes {
    let res = guarded(|| {
        let mut run = match Run::<P, F>::start(w, cache) {
            Ok(r) => r,
            Err((divs, Stop::Diverged)) => return LineRes::Diverged(divs),
            Err((_, Stop::Skip)) => return LineRes::Skipped,
            Err((_, Stop::Tool(e))) => return LineRes::Tool(e),
        };
        for op in &line.ops {
            match run.step(op, cache) {
                Ok(()) => {}
                Err(Stop::Diverged) => return LineRes::Diverged(run.divs),
                Err(Stop::Skip) => {
                    return if run.divs.is_empty() { LineRes::Skipped } else { LineRes::Diverged(run.divs) }
                }
                Err(Stop::Tool(e)) => return LineRes::Tool(e),
            }
        }
        // the report
        let mut want = line.rep.clone();
        let rep = match want.out.as_str() {
            "L" => None,
            "R" => run.done.take(),
            _ => {
                run.at = "termination".into();
                let errors = line.cf == "X" && salt % 2 == 0;
                want.out = if errors { "N".into() } else { "T".into() };
                if run.n.session.is_none() {
                    None
                } else {
                    match run.n.terminate(errors) {
                        Ok(r) => Some(r),
                        Err(e) => {
                            run.div("local", format!("terminate: {e:?}"));
                            None
                        }
                    }
                }
            }
        };
        if let Some(rep) = rep {
            let r = check_report::<P, F>(
                &rep,
                &want,
                &|r| w.rid(r),
                &w.hdr.me,
                &run.trail,
                w.sid.as_ref(),
                &mut run.divs,
                "report",
            );
            if let Err(e) = r {
                return LineRes::Tool(e);
            }
        }
        if let Some(r) = LogInner::repeated(std::iter::once(&*run.n.log)).pop() {
            run.div("random", r);
        }
        if run.divs.is_empty() {
            LineRes::Same
        } else {
            LineRes::Diverged(run.divs)
        }
    });
    match res {
        Ok(r) => r,
        Err(Ok(p)) => LineRes::Diverged(vec![Div { aspect: "panic", at: "".into(), detail: p }]),
        Err(Err(t)) => LineRes::Tool(t),
    }
}

/// The operations without their results, and whether some step allows several results: (before the last, the last).
pub fn skeleton(line: &Line) -> (String, bool, bool) {
    let mut s = String::new();
    let (mut before, mut last) = (false, false);
    for o in &line.ops {
        before |= last;
        last = false;
        match o {
            Op::D { j, .. } => s += &format!("D{j} "),
            Op::A { from, amb, .. } => {
                s += &format!("A{from} ");
                last = *amb;
            }
            Op::Q { amb, .. } => {
                s += "Q ";
                last = *amb;
            }
            Op::F { .. } => s += "F ",
        }
    }
    (format!("{} {s}", line.g), before, last)
}

#[derive(Debug, Default, Serialize)]
pub struct Summary {
    pub lines: usize,
    pub selected: usize,
    pub operations: usize,
    pub replayed: BTreeMap<String, usize>,
    pub skipped: BTreeMap<String, usize>,
    pub configurations: usize,
    pub ambiguous: usize,
    pub outcomes: BTreeMap<String, usize>,
    pub diverged: usize,
    pub tool_errors: Vec<String>,
    pub divergences: Vec<Value>,
    pub reference_problems: BTreeSet<String>,
}

pub struct Job<'a> {
    pub hdrs: &'a BTreeMap<usize, Hdr>,
    pub lines: &'a [Line],
    pub calib: &'a Arc<Calib>,
}

/// Replays the lines in one wire format; the result for each line.
pub fn replay_format<F: Fmt + Sync>(job: &Job, threads: usize) -> Result<(Vec<LineRes>, BTreeSet<String>), String> {
    let mut problems = BTreeSet::new();
    let mut worlds: BTreeMap<usize, World<F>> = BTreeMap::new();
    for (g, h) in job.hdrs {
        let r = guarded(|| crate::with_shape!(h.shape.as_str(), P, World::<F>::new::<P>(h, job.calib)));
        match r {
            Ok(Ok(w)) => {
                for p in &w.rr.problems {
                    problems.insert(format!("cfg {g}: {p}"));
                }
                worlds.insert(*g, w);
            }
            Ok(Err(e)) => return Err(format!("{}cfg {g}: {e}", if e.contains("HONEST") { "HONEST " } else { "" })),
            Err(Ok(p)) => return Err(format!("LIBPANIC cfg {g}: {p}")),
            Err(Err(p)) => return Err(format!("cfg {g}: {p}")),
        }
    }
    let worlds = &worlds;
    let chunk = job.lines.len().div_ceil(threads).max(1);
    let mut results: Vec<LineRes> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = job
            .lines
            .chunks(chunk)
            .enumerate()
            .map(|(ci, ls)| {
                s.spawn(move || {
                    let mut caches: BTreeMap<usize, OutCache> = BTreeMap::new();
                    ls.iter()
                        .enumerate()
                        .map(|(i, l)| {
                            let Some(w) = worlds.get(&l.g) else { return LineRes::Tool("no such configuration".into()) };
                            let cache = caches.entry(l.g).or_default();
                            crate::with_shape!(
                                w.cfg.shape.as_str(),
                                P,
                                run_line::<P, F>(w, l, ci * chunk + i, cache)
                            )
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(v) => results.extend(v),
                Err(_) => results.push(LineRes::Tool("a replay thread died".into())),
            }
        }
    });
    Ok((results, problems))
}

/// Reads the output of TLC.
pub fn read_lines(text: &str, threads: usize) -> Result<(BTreeMap<usize, Hdr>, Vec<Line>), String> {
    let all: Vec<&str> = text.lines().filter(|l| l.starts_with("\"{")).collect();
    let (mut hdrs, mut lines) = (BTreeMap::new(), vec![]);
    std::thread::scope(|s| {
        let hs: Vec<_> =
            all.chunks(all.len().div_ceil(threads).max(1)).map(|c| s.spawn(move || read_chunk(c))).collect();
        for h in hs {
            let (a, b) = h.join().map_err(|_| "a thread died".to_string())??;
            hdrs.extend(a);
            lines.extend(b);
        }
        Ok((hdrs, lines))
    })
}

fn read_chunk(text: &[&str]) -> Result<(BTreeMap<usize, Hdr>, Vec<Line>), String> {
    let mut hdrs = BTreeMap::new();
    let mut lines = vec![];
    for l in text {
        let raw: String = serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?;
        let v: Value = serde_json::from_str(&raw).map_err(|e| format!("{e}: {raw}"))?;
        if v.get("cfg").is_some() {
            let h: Hdr = serde_json::from_value(v).map_err(|e| format!("header: {e}: {raw}"))?;
            hdrs.insert(h.cfg, h);
        } else {
            lines.push(parse_line(v, raw)?);
        }
    }
    Ok((hdrs, lines))
}

pub fn summarise<F: Fmt + Sync>(job: &Job, threads: usize, sum: &mut Summary) -> Result<(), String> {
    let (results, problems) = replay_format::<F>(job, threads)?;
    for l in job.lines {
        let label = match l.ops.last() {
            Some(Op::D { o, .. }) => format!("delivery:{o}"),
            Some(Op::A { v, .. }) => format!("processing:{v}"),
            Some(Op::Q { .. }) => "cached".into(),
            Some(Op::F { next, .. }) if next.ends_with('e') => "finalize:echo".into(),
            Some(Op::F { next, .. }) if next == "RESULT" => "finalize:result".into(),
            Some(Op::F { .. }) => "finalize:round".into(),
            None => "start".into(),
        };
        *sum.outcomes.entry(label).or_default() += 1;
    }
    sum.operations += job.lines.iter().map(|l| l.ops.len()).sum::<usize>();
    sum.reference_problems.extend(problems);
    // lines that end with a step with several allowed results: one of them must be what happens
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, l) in job.lines.iter().enumerate() {
        let (sk, before, last) = skeleton(l);
        let key = if before {
            // what happens before is not determined, so the line may not apply
            format!("?{i}")
        } else if last {
            format!("!{sk}")
        } else {
            format!("={i}")
        };
        groups.entry(key).or_default().push(i);
    }
    let mut seen_details = BTreeSet::new();
    for (key, idx) in groups {
        let mut best: Option<(usize, &Vec<Div>)> = None;
        let mut fine = false;
        for i in idx {
            match &results[i] {
                LineRes::Same => {
                    fine = true;
                    *sum.replayed.entry(F::NAME.into()).or_default() += 1;
                }
                LineRes::Skipped => {
                    fine = true;
                    *sum.skipped.entry(F::NAME.into()).or_default() += 1;
                }
                LineRes::Tool(e) => {
                    if sum.tool_errors.len() < 5 {
                        sum.tool_errors.push(format!("{e} [{}]", job.lines[i].raw));
                    }
                }
                LineRes::Diverged(d) => {
                    let severe = d.iter().any(|d| d.aspect == "panic" || d.aspect == "local");
                    if severe || best.is_none() {
                        best = Some((i, d));
                    }
                }
            }
        }
        if key.starts_with('!') {
            sum.ambiguous += 1;
        }
        let Some((i, d)) = best else { continue };
        let severe = d.iter().any(|d| d.aspect == "panic" || d.aspect == "local");
        if (fine || key.starts_with('?')) && !severe {
            continue;
        }
        sum.diverged += 1;
        let sig: Vec<_> = d.iter().map(|d| (d.aspect, d.at.clone(), d.detail.clone())).collect();
        if sum.divergences.len() < 400 && seen_details.insert(format!("{sig:?}")) {
            let l = &job.lines[i];
            sum.divergences.push(json!({
                "format": F::NAME, "divergences": d, "line": serde_json::from_str::<Value>(&l.raw).unwrap_or_default(),
                "cfg": l.g, "salt": i,
            }));
        }
    }
    Ok(())
}
