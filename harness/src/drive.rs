//! Runs the asynchronous runners in the environments of the TLA+ specification `Driver`.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use manul::session::{
    tokio::{par_run_session, run_session, MessageIn, MessageOut},
    LocalError, Session, SessionReport,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::{
    craft::{rng, Calib},
    model::{new_log, parse_rid, Cfg, Ev, Log, LogInner, Proto, CELL},
    replay::*,
    sp::{Bin, Fmt, Id, Json, Signer, SP},
};

#[derive(Debug, Clone, Deserialize)]
pub struct DHdr {
    #[serde(flatten)]
    pub hdr: Hdr,
    pub cap: usize,
    pub hold: BTreeSet<String>,
}

#[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Eq)]
pub struct Obs {
    /// sent: (round, destination)
    pub s: Vec<(String, String)>,
    /// calls of protocol code
    pub l: Vec<Vec<String>>,
    /// unread incoming messages
    pub n: usize,
    /// outcome
    pub e: String,
}

#[derive(Debug, Clone, Deserialize)]
pub struct End {
    pub o: Obs,
    pub r: RepS,
}

#[derive(Debug, Clone)]
pub struct DOp {
    pub op: String,
    pub arg: Value,
    pub obs: Vec<Obs>,
}

#[derive(Debug, Clone)]
pub struct DLine {
    pub g: usize,
    pub par: bool,
    pub ops: Vec<DOp>,
    /// once everything is drained and released, before it is cancelled (if not empty)
    pub mid: Vec<Obs>,
    pub ends: Vec<End>,
    pub raw: String,
}

fn read(text: &str) -> Result<(BTreeMap<usize, DHdr>, Vec<DLine>), String> {
    let (mut hdrs, mut lines) = (BTreeMap::new(), vec![]);
    for l in text.lines().filter(|l| l.starts_with("\"{")) {
        let raw: String = serde_json::from_str(l).map_err(|e| e.to_string())?;
        let v: Value = serde_json::from_str(&raw).map_err(|e| e.to_string())?;
        if v.get("cfg").is_some() {
            let h: DHdr = serde_json::from_value(v).map_err(|e| format!("header: {e}"))?;
            hdrs.insert(h.hdr.cfg, h);
            continue;
        }
        let e = |e: serde_json::Error| format!("{e}: {raw}");
        let mut ops = vec![];
        for o in v["h"].as_array().ok_or("h")? {
            let o = o.as_array().ok_or("operation")?;
            let last = o.last().ok_or("operation")?.clone();
            let mut obs: Vec<Obs> = serde_json::from_value(last).map_err(e)?;
            obs.iter_mut().for_each(norm);
            ops.push(DOp {
                op: o[0].as_str().ok_or("operation")?.into(),
                arg: if o.len() > 2 { o[1].clone() } else { Value::Null },
                obs,
            });
        }
        let mut ends: Vec<End> = serde_json::from_value(v["f"].clone()).map_err(e)?;
        ends.iter_mut().for_each(|x| norm(&mut x.o));
        let mut mid: Vec<Obs> = serde_json::from_value(v["m"].clone()).map_err(e)?;
        mid.iter_mut().for_each(norm);
        lines.push(DLine { mid, g: v["g"].as_u64().ok_or("g")? as usize, par: v["run"] == "par", ops, ends, raw: raw.clone() });
    }
    Ok((hdrs, lines))
}

fn norm(o: &mut Obs) {
    o.s.sort();
    o.l.sort();
    if !o.e.is_empty() {
        o.n = 0;
    }
}

/// A runtime and the configuration its threads work with.
pub struct Rt {
    pub rt: tokio::runtime::Runtime,
    pub cell: Arc<Mutex<Option<Arc<Cfg>>>>,
}
impl Rt {
    pub fn new(workers: usize) -> Self {
        let cell: Arc<Mutex<Option<Arc<Cfg>>>> = Default::default();
        let c = cell.clone();
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(workers)
            .max_blocking_threads(512)
            .enable_all()
            .on_thread_start(move || CELL.with(|x| *x.borrow_mut() = Some(c.clone())))
            .build()
            .expect("runtime");
        Rt { rt, cell }
    }
}

/// What each message (with its destination) is: (round, destination).
type Known = BTreeMap<(String, String), (String, String)>;

struct Script<'a, P: Proto, F: Fmt> {
    w: &'a World<F>,
    known: &'a mut BTreeMap<String, Known>,
    log: Log,
    tx: mpsc::Sender<MessageIn<SP<F>>>,
    rx: mpsc::Receiver<MessageOut<SP<F>>>,
    handle: tokio::task::JoinHandle<Result<SessionReport<P, SP<F>>, LocalError>>,
    result: Option<Result<Result<SessionReport<P, SP<F>>, LocalError>, String>>,
    raw_sent: Vec<MessageOut<SP<F>>>,
    obs: Obs,
    log_pos: usize,
    divs: Vec<Div>,
    at: String,
    auto: bool,
}

fn event(e: &Ev) -> Vec<String> {
    let c = |b: &Option<crate::model::Body>| b.as_ref().map(|b| b.c.clone()).unwrap_or("none".into());
    match e {
        Ev::New { rid, .. } => vec!["new".into(), rid.clone()],
        Ev::Fin { rid, .. } => vec!["fin".into(), rid.clone()],
        Ev::Recv { rid, from, dm, eb, nb, .. } => vec!["recv".into(), rid.clone(), from.clone(), c(dm), c(eb), c(nb)],
    }
}

impl<P: Proto + Send + Sync, F: Fmt> Script<'_, P, F> {
    fn div(&mut self, aspect: &'static str, detail: String) {
        self.divs.push(Div { aspect, at: self.at.clone(), detail });
    }

    /// What kind of message this is: by comparison with the ones to be sent.
    fn identify(&mut self, m: &MessageOut<SP<F>>) -> Result<Option<(String, String)>, String> {
        let me = self.w.hdr.me.clone();
        if m.session_id != self.w.sid || m.from.0 != me {
            self.div("outgoing", format!("a message marked as from {:?} in session {:?}", m.from, m.session_id));
        }
        let text = serde_json::to_string(&m.message).map_err(|e| e.to_string())?;
        let dest = m.to.0.clone();
        let rounds: Vec<String> = self.obs.l.iter().filter(|e| e[0] == "new").map(|e| e[1].clone()).collect();
        for r in rounds.iter().rev() {
            for echo in [false, true] {
                let got: BTreeMap<String, String> = if echo {
                    self.obs
                        .l
                        .iter()
                        .filter(|e| e[0] == "recv" && &e[1] == r && e[4].starts_with("ok"))
                        .filter(|e| e[3..].iter().all(|c| c == "none" || c.starts_with("ok")))
                        .map(|e| (e[2].clone(), e[4].clone()))
                        .collect()
                } else {
                    BTreeMap::new()
                };
                let q = &self.w.cfg.stages[parse_rid(r).0].rounds[r];
                if echo && !q.eb {
                    continue;
                }
                let key = format!("{r}{}{got:?}", if echo { "e" } else { "" });
                if !self.known.contains_key(&key) {
                    let rid = format!("{r}{}", if echo { "e" } else { "" });
                    let mut dests: Vec<String> = q.dst.get(&me).into_iter().flatten().cloned().collect();
                    if echo && q.part.get(&me).is_some_and(|p| p == "R") {
                        dests = q.tgt.get(&me).into_iter().flatten().cloned().collect();
                    }
                    let vs = if dests.is_empty() {
                        vec![]
                    } else if echo {
                        self.w.honest_echoes(&me, r, &dests, &got)?
                    } else {
                        dests.iter().map(|d| self.w.honest_main(&me, r, d)).collect::<Result<Vec<_>, _>>()?
                    };
                    let all = dests.iter().zip(vs).map(|(d, v)| ((d.clone(), v.to_string()), (rid.clone(), d.clone()))).collect();
                    self.known.insert(key.clone(), all);
                }
                let k = &self.known[&key];
                if let Some(x) = k.get(&(dest.clone(), text.clone())) {
                    return Ok(Some(x.clone()));
                }
                // (the order of keys is not the same in values and in what is serialized directly)
                let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                if let Some(x) = k.get(&(dest.clone(), v.to_string())) {
                    return Ok(Some(x.clone()));
                }
            }
        }
        let text: String = text.chars().take(600).collect();
        self.div("outgoing", format!("a message to {dest} that should not be sent: {text}"));
        Ok(None)
    }

    fn sample(&mut self) -> Result<(), String> {
        let fin = self.handle.is_finished();
        {
            let log = self.log.lock().unwrap();
            let new: Vec<_> = log[self.log_pos..].iter().map(event).collect();
            drop(log);
            self.log_pos += new.len();
            if !new.is_empty() {
                self.obs.l.extend(new);
                self.obs.l.sort();
            }
        }
        if self.auto {
            while let Ok(m) = self.rx.try_recv() {
                self.raw_sent.push(m);
            }
        }
        // (messages are identified after the protocol calls that precede them are known)
        self.take_sent()?;
        self.obs.n = self.tx.max_capacity() - self.tx.capacity();
        if fin && self.result.is_none() {
            self.finish();
        }
        if self.result.is_some() {
            self.obs.n = 0;
        }
        Ok(())
    }

    fn take_sent(&mut self) -> Result<(), String> {
        if self.raw_sent.is_empty() {
            return Ok(());
        }
        let log = self.log.lock().unwrap();
        let new: Vec<_> = log[self.log_pos..].iter().map(event).collect();
        drop(log);
        self.log_pos += new.len();
        self.obs.l.extend(new);
        self.obs.l.sort();
        for m in std::mem::take(&mut self.raw_sent) {
            if let Some(x) = self.identify(&m)? {
                self.obs.s.push(x);
            }
        }
        self.obs.s.sort();
        Ok(())
    }

    /// (the task has ended)
    fn finish(&mut self) {
        let h = &mut self.handle;
        let mut out = None;
        // polling a finished task gives its result at once
        let waker = std::task::Waker::noop();
        let mut cx = std::task::Context::from_waker(waker);
        for _ in 0..1000 {
            if let std::task::Poll::Ready(r) = std::future::Future::poll(std::pin::Pin::new(&mut *h), &mut cx) {
                out = Some(r);
                break;
            }
            std::thread::yield_now();
        }
        self.result = Some(match out {
            Some(Ok(r)) => Ok(r),
            Some(Err(e)) if e.is_panic() => {
                let p = e.into_panic();
                Err(p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default())
            }
            Some(Err(e)) => Err(format!("{e}")),
            None => Err("the result of the task cannot be had".into()),
        });
        use manul::session::SessionOutcome as O;
        self.obs.e = match &self.result {
            Some(Ok(Ok(r))) => match &r.outcome {
                O::Result(_) => "R",
                O::NotEnoughMessages => "N",
                O::Terminated => "T",
            },
            Some(Ok(Err(_))) => "L",
            _ => "panic",
        }
        .into();
    }

    fn wait(&mut self, obs: &[Obs], limit: Duration) -> Result<bool, String> {
        let t0 = Instant::now();
        let mut spins = 0;
        let mut matched = 0;
        loop {
            self.sample()?;
            if obs.contains(&self.obs) {
                // (not sampled at one moment, so once more)
                matched += 1;
                if matched > 1 {
                    return Ok(true);
                }
                continue;
            }
            matched = 0;
            if t0.elapsed() > limit {
                return Ok(false);
            }
            spins += 1;
            if spins < 50 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(30));
            }
        }
    }

    fn mismatch(&mut self, what: &str, allowed: &[Obs]) {
        let o = self.obs.clone();
        let beyond = |a: &Obs| {
            o.s.iter().any(|x| o.s.iter().filter(|y| *y == x).count() > a.s.iter().filter(|y| *y == x).count())
                || o.l.iter().any(|x| o.l.iter().filter(|y| *y == x).count() > a.l.iter().filter(|y| *y == x).count())
                || (!o.e.is_empty() && o.e != a.e)
        };
        let aspect = match o.e.as_str() {
            "panic" => "panic",
            "L" => "local",
            "" if !allowed.iter().all(beyond) => "hang",
            _ if allowed.iter().all(|a| a.e != o.e) => "outcome",
            _ => "steps",
        };
        let why = match &self.result {
            Some(Ok(Err(e))) => format!(" ({e:?})"),
            Some(Err(e)) => format!(" (panic: {e})"),
            _ => String::new(),
        };
        // against the nearest one
        let minus = |a: &Obs, b: &Obs| {
            let l: Vec<_> = a.l.iter().filter(|x| a.l.iter().filter(|y| y == x).count() > b.l.iter().filter(|y| y == x).count()).cloned().collect();
            let s: Vec<_> = a.s.iter().filter(|x| a.s.iter().filter(|y| y == x).count() > b.s.iter().filter(|y| y == x).count()).cloned().collect();
            (l, s)
        };
        let dist = |a: &Obs| {
            let ((l, s), (m, t)) = (minus(&o, a), minus(a, &o));
            l.len() + s.len() + m.len() + t.len() + usize::from(a.e != o.e) + usize::from(a.n != o.n)
        };
        let d = match allowed.iter().min_by_key(|a| dist(a)) {
            None => "nothing is specified".to_string(),
            Some(a) => {
                let ((l, s), (m, t)) = (minus(&o, a), minus(a, &o));
                let cut = |x: Value| x.to_string().chars().take(600).collect::<String>();
                format!(
                    "{what}: against the nearest of {} specified: too many calls {} and messages {}, missing calls {} and messages {}; unread {} (specified {}), outcome {:?} (specified {:?}){why}",
                    allowed.len(), cut(json!(l)), cut(json!(s)), cut(json!(m)), cut(json!(t)), o.n, a.n, o.e, a.e
                )
            }
        };
        self.div(aspect, d);
    }
}

pub fn run_script<P: Proto + Send + Sync, F: Fmt>(
    w: &World<F>,
    h: &DHdr,
    line: &DLine,
    salt: usize,
    rt: &Rt,
    known: &mut BTreeMap<String, Known>,
    limit: Duration,
) -> LineRes
where
    P::EP: Send,
    SP<F>: Send + Sync,
{
    *rt.cell.lock().unwrap() = Some(w.cfg.clone());
    crate::model::set_cfg(&w.cfg);
    let log = new_log();
    log.hold(&h.hold, salt / 2 % 2 == 1);
    let me = Id::new(&w.hdr.me);
    let mut r = rng(100 + salt as u64);
    let session = match Session::<P, SP<F>>::new(&mut r, w.sid.clone(), Signer::logged(&me, &log), P::ep(&w.cfg, &log, vec![], "in".into())) {
        Ok(s) => s,
        Err(e) => return LineRes::Diverged(vec![Div { aspect: "local", at: "start".into(), detail: format!("{e:?}") }]),
    };
    let (tx_out, rx_out) = mpsc::channel(if h.cap == 0 { 4096 } else { h.cap });
    let (tx_in, mut rx_in) = mpsc::channel(4096);
    let token = CancellationToken::new();
    let (tk, par) = (token.clone(), line.par);
    let handle = rt.rt.spawn(async move {
        if par {
            par_run_session(&mut r, &tx_out, &mut rx_in, tk, session).await
        } else {
            run_session(&mut r, &tx_out, &mut rx_in, tk, session).await
        }
    });
    let mut s = Script::<P, F> {
        w,
        known,
        log: log.clone(),
        tx: tx_in,
        rx: rx_out,
        handle,
        result: None,
        raw_sent: vec![],
        obs: Obs { s: vec![], l: vec![], n: 0, e: String::new() },
        log_pos: 0,
        divs: vec![],
        at: "start".into(),
        auto: h.cap == 0,
    };
    let res = script(&mut s, line, &token, limit);
    // leave nothing behind
    log.release(None);
    token.cancel();
    s.rx.close();
    s.handle.abort();
    match res {
        Ok(false) => LineRes::Skipped,
        Ok(true) if s.divs.is_empty() => LineRes::Same,
        Ok(true) => LineRes::Diverged(s.divs),
        Err(e) => LineRes::Tool(e),
    }
}

fn script<P: Proto + Send + Sync, F: Fmt>(
    s: &mut Script<'_, P, F>,
    line: &DLine,
    token: &CancellationToken,
    limit: Duration,
) -> Result<bool, String> {
    for o in &line.ops {
        match o.op.as_str() {
            "B" => {}
            "P" => {
                let js: Vec<usize> = serde_json::from_value(o.arg.clone()).map_err(|e| e.to_string())?;
                s.at = format!("messages {js:?} pushed");
                for j in js {
                    let Some(mat) = s.w.mats[j - 1].clone() else { return Ok(false) };
                    // (refused once the runner is gone)
                    let _ = s.tx.try_send(MessageIn { from: mat.from, message: mat.msg });
                }
            }
            "C" => {
                s.at = "cancelled".into();
                token.cancel();
            }
            "R" => {
                s.at = format!("{} released", o.arg);
                s.log.release(o.arg.as_str());
            }
            "S" => {
                s.at = "a message taken out of the channel".into();
                let t0 = Instant::now();
                loop {
                    match s.rx.try_recv() {
                        Ok(m) => {
                            s.raw_sent.push(m);
                            break;
                        }
                        Err(_) if t0.elapsed() < limit => std::thread::sleep(Duration::from_micros(30)),
                        Err(_) => {
                            s.div("hang", "nothing was sent".into());
                            return Ok(true);
                        }
                    }
                }
            }
            x => return Err(format!("unknown operation {x}")),
        }
        if !s.wait(&o.obs, limit)? {
            s.mismatch("while running", &o.obs);
            return Ok(true);
        }
        if !s.divs.is_empty() {
            return Ok(true);
        }
    }
    s.at = "end".into();
    if line.mid.is_empty() {
        token.cancel();
    }
    s.log.release(None);
    s.auto = true;
    if !line.mid.is_empty() {
        if !s.wait(&line.mid, limit)? {
            s.mismatch("before the end", &line.mid);
            return Ok(true);
        }
        token.cancel();
    }
    let allowed: Vec<Obs> = line.ends.iter().map(|e| e.o.clone()).collect();
    if !s.wait(&allowed, limit)? {
        s.mismatch("at the end", &allowed);
        return Ok(true);
    }
    let trail: Vec<String> = s
        .log
        .lock()
        .unwrap()
        .iter()
        .filter_map(|e| match e {
            Ev::Fin { rid, .. } => Some(rid.clone()),
            _ => None,
        })
        .collect();
    let rep = match s.result.take() {
        Some(Ok(Ok(rep))) => rep,
        _ => return Ok(true),
    };
    let mut best: Option<Vec<Div>> = None;
    for e in line.ends.iter().filter(|e| e.o == s.obs) {
        let mut divs = vec![];
        check_report::<P, F>(&rep, &e.r, &|r| s.w.rid(r), &s.w.hdr.me, &trail, s.w.sid.as_ref(), &mut divs, "report")?;
        if best.as_ref().is_none_or(|b| divs.len() < b.len()) {
            best = Some(divs);
        }
    }
    s.divs.extend(best.unwrap_or_default());
    if let Some(r) = LogInner::repeated(std::iter::once(&*s.log)).pop() {
        s.div("random", r);
    }
    Ok(true)
}

#[derive(Debug, Default, Serialize)]
pub struct DSummary {
    pub lines: usize,
    pub selected: usize,
    pub configurations: usize,
    pub scripts: BTreeMap<String, usize>,
    pub skipped: usize,
    pub steps: usize,
    pub ends: BTreeMap<String, usize>,
    pub nondeterministic: usize,
    pub tool_errors: Vec<String>,
    pub reference_problems: BTreeSet<String>,
    pub diverged: usize,
    pub divergences: Vec<Value>,
}

pub fn drive(text: &str, calib: &Arc<Calib>, threads: usize, max: Option<usize>, seed: u64) -> Result<DSummary, String> {
    let (hdrs, mut lines) = read(text)?;
    let mut sum = DSummary { lines: lines.len(), configurations: hdrs.len(), ..Default::default() };
    if let Some(max) = max {
        if lines.len() > max {
            let p = max as f64 / lines.len() as f64;
            lines.retain(|l| {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (seed, &l.raw).hash(&mut h);
                (h.finish() % 1_000_000) as f64 / 1_000_000.0 < p
            });
        }
    }
    sum.selected = lines.len();
    let mut jsons = BTreeMap::new();
    let mut bins = BTreeMap::new();
    for (g, h) in &hdrs {
        let mk = || -> Result<_, String> {
            crate::with_shape!(
                h.hdr.shape.as_str(),
                P,
                Ok((World::<Json>::new::<P>(&h.hdr, calib)?, World::<Bin>::new::<P>(&h.hdr, calib)?))
            )
        };
        match guarded(mk) {
            Ok(Ok((a, b))) => {
                for p in a.rr.problems.iter().chain(&b.rr.problems) {
                    sum.reference_problems.insert(format!("cfg {g}: {p}"));
                }
                jsons.insert(*g, a);
                bins.insert(*g, b);
            }
            Ok(Err(e)) => return Err(format!("{}cfg {g}: {e}", if e.contains("HONEST") { "HONEST " } else { "" })),
            Err(Ok(p)) => return Err(format!("LIBPANIC cfg {g}: {p}")),
            Err(Err(p)) => return Err(format!("cfg {g}: {p}")),
        }
    }
    for l in &lines {
        sum.steps += l.ops.len();
        if l.ends.len() > 1 || l.ops.iter().any(|o| o.obs.len() > 1) {
            sum.nondeterministic += 1;
        }
        for e in l.ends.iter().map(|e| &e.o.e).collect::<BTreeSet<_>>() {
            *sum.ends.entry(e.clone()).or_default() += 1;
        }
    }
    let next = AtomicUsize::new(0);
    let hangs = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, LineRes)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let rt = Rt::new(1);
                let mut kj = BTreeMap::new();
                let mut kb = BTreeMap::new();
                let mut mine = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    // (a runner that hangs does so in many scripts; a few will do)
                    if i >= lines.len() || hangs.load(Ordering::SeqCst) >= 3 {
                        break;
                    }
                    let l = &lines[i];
                    let (Some(h), Some(wj), Some(wb)) = (hdrs.get(&l.g), jsons.get(&l.g), bins.get(&l.g)) else {
                        mine.push((i, LineRes::Tool("no such configuration".into())));
                        continue;
                    };
                    let limit = Duration::from_secs(20);
                    let r = guarded(|| {
                        crate::with_shape!(h.hdr.shape.as_str(), P, {
                            if i % 2 == 0 {
                                run_script::<P, Json>(wj, h, l, i, &rt, kj.entry(l.g).or_default(), limit)
                            } else {
                                run_script::<P, Bin>(wb, h, l, i, &rt, kb.entry(l.g).or_default(), limit)
                            }
                        })
                    });
                    let r = match r {
                        Ok(r) => r,
                        Err(Ok(p)) => LineRes::Diverged(vec![Div { aspect: "panic", at: "".into(), detail: p }]),
                        Err(Err(t)) => LineRes::Tool(t),
                    };
                    if let LineRes::Diverged(d) = &r {
                        if d.iter().any(|d| d.aspect == "hang") {
                            hangs.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                    mine.push((i, r));
                }
                rt.rt.shutdown_background();
                results.lock().unwrap().extend(mine);
            });
        }
    });
    let mut results = results.into_inner().map_err(|_| "a thread died")?;
    results.sort_by_key(|(i, _)| *i);
    for (i, r) in results {
        match r {
            LineRes::Same => *sum.scripts.entry(if lines[i].par { "par" } else { "seq" }.into()).or_default() += 1,
            LineRes::Skipped => sum.skipped += 1,
            LineRes::Tool(e) => {
                if sum.tool_errors.len() < 5 {
                    sum.tool_errors.push(format!("{e} [{:.300}]", lines[i].raw));
                }
            }
            LineRes::Diverged(d) => {
                sum.diverged += 1;
                if sum.divergences.len() < 60 {
                    let l = &lines[i];
                    let ops: Vec<Value> = l.ops.iter().map(|o| json!([o.op, o.arg])).collect();
                    sum.divergences.push(json!({
                        "aspect": d[0].aspect,
                        "format": if l.par { "par_run_session" } else { "run_session" },
                        "detail": format!("{} at {} in {}: {}", d[0].aspect, d[0].at, json!(ops), d[0].detail),
                        "divergences": d, "cfg": l.g, "line": serde_json::from_str::<Value>(&l.raw).unwrap_or_default(),
                    }));
                }
            }
        }
    }
    Ok(sum)
}
