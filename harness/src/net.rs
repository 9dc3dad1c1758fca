//! Runs the development runners on the configurations of Net.tla and compares what all the parties
//! report with what the specification allows them to report together.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use manul::{
    dev::{check_evidence, check_evidence_with_extensions, run_sync, tokio::run_async, ExecutionResult},
    protocol::{EntryPoint, RoundId},
};
use rand::seq::SliceRandom;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    craft::{rng, Calib},
    drive::Rt,
    ext::{self, Ovr},
    model::{map_or_empty, new_log, set_cfg, Cfg, Ev, Log, LogInner, Proto, StageCfg, Shared, MP},
    replay::{check_report, guarded, mk_rid, Div, Hdr, PayS, RepS, World},
    sp::{Bin, Fmt, Id, Json, Signer, SP},
};

#[derive(Debug, Clone, Deserialize)]
struct NHdr {
    cfg: usize,
    shape: String,
    stages: Vec<StageCfg>,
    ext: Vec<Ovr>,
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
struct NFin {
    r: String,
    #[serde(deserialize_with = "map_or_empty")]
    pay: BTreeMap<String, PayS>,
}
#[derive(Debug, Clone, PartialEq, Deserialize)]
struct NNode {
    rep: RepS,
    fins: Vec<NFin>,
}
#[derive(Debug, Clone, PartialEq, Deserialize)]
struct NLine {
    g: usize,
    #[serde(deserialize_with = "map_or_empty")]
    nodes: BTreeMap<String, NNode>,
    #[serde(deserialize_with = "map_or_empty")]
    judge: BTreeMap<String, NJudge>,
}
/// What the helpers for testing misbehaviour have to say about a party: whether the execution
/// demonstrates its misbehaviour, and the errors the others report (empty for those of echo rounds).
#[derive(Debug, Clone, PartialEq, Deserialize)]
struct NJudge {
    ok: bool,
    es: BTreeSet<String>,
}
impl NJudge {
    /// Is the description in all the evidence?
    fn accepts(&self, expected: &str, shared_ok: bool, others: usize) -> Option<bool> {
        if others == 0 {
            return Some(self.ok);
        }
        if !self.ok || !shared_ok && self.es.iter().any(|e| !e.is_empty()) {
            return Some(false);
        }
        // (the wording of errors of echo rounds is not specified, except that they are not the protocol's)
        Some(self.es.iter().all(|e| {
            if e.is_empty() { expected.is_empty() } else { format!("model error {e}").contains(expected) }
        }))
    }
}

#[derive(Debug, Default, Serialize)]
pub struct NSummary {
    pub configurations: usize,
    pub lines: usize,
    /// different outcomes among them
    pub outcomes: usize,
    pub runs: BTreeMap<String, usize>,
    /// terminal states of the specification seen in a run
    pub reached: usize,
    pub draws: usize,
    /// judgements of executions by the helpers for testing misbehaviour, and how many of them were positive
    pub judged: usize,
    pub accepted: usize,
    pub tool_errors: Vec<String>,
    pub diverged: usize,
    pub divergences: Vec<Value>,
}

struct Tpl {
    cfg: Arc<Cfg>,
    ext: Vec<Ovr>,
    templates: BTreeMap<usize, RoundId>,
    lines: Vec<NLine>,
}

struct Job {
    calib: Arc<Calib>,
    cfgs: Vec<Tpl>,
    runs: usize,
    seed: u64,
    sync: bool,
    tasks: bool,
    judge: bool,
}

type Logs = BTreeMap<String, Log>;

/// Which of the allowed outcomes the execution has, or the divergences from the closest one.
fn judge<P: Proto, F: Fmt>(
    job: &Job,
    t: &Tpl,
    res: &ExecutionResult<P, SP<F>>,
    logs: &Logs,
) -> Result<Result<usize, Vec<Div>>, String> {
    let mut divs = vec![];
    let mut add = |aspect: &'static str, at: &str, detail: String| divs.push(Div { aspect, at: at.into(), detail });
    let names: BTreeSet<&String> = logs.keys().collect();
    let got: BTreeSet<&String> = res.reports.keys().map(|k| &k.0).collect();
    if got != names {
        add("reports", "", format!("reports of {got:?}, specified {names:?}"));
        return Ok(Err(divs));
    }
    for r in LogInner::repeated(logs.values().map(|l| &**l)) {
        add("random", "", r);
        break;
    }
    let mut rnds: BTreeSet<Vec<u8>> = BTreeSet::new();
    for l in logs.values() {
        rnds.extend(l.rnds.lock().unwrap().iter().map(|x| x.1.clone()));
    }
    if rnds.len() != 1 {
        add("rnd", "", format!("{} different values of the shared randomness", rnds.len()));
        return Ok(Err(divs));
    }
    let rnd = rnds.into_iter().next().unwrap_or_default();
    let mut best: Option<Vec<Div>> = None;
    for (i, l) in t.lines.iter().enumerate() {
        let mut ds = vec![];
        for (n, want) in &l.nodes {
            let mut d = |aspect: &'static str, detail: String| ds.push(Div { aspect, at: n.clone(), detail });
            let log = logs.get(n).ok_or("a party without a log")?;
            let mut fins = vec![];
            for e in log.lock().unwrap().iter() {
                if let Ev::Fin { me, rid, pay, art } = e {
                    if me != n {
                        d("next", format!("a round of {n} believes to be {me}'s"));
                    }
                    fins.push((rid.clone(), pay.clone(), art.clone()));
                }
            }
            let trail: Vec<String> = want.fins.iter().map(|f| f.r.clone()).collect();
            let tr: Vec<String> = fins.iter().map(|f| f.0.clone()).collect();
            if trail != tr {
                d("next", format!("rounds executed: {tr:?}, specified {trail:?}"));
            } else {
                for (w, (rid, pay, art)) in want.fins.iter().zip(&fins) {
                    let wp: BTreeMap<String, _> = w
                        .pay
                        .iter()
                        .map(|(f, p)| {
                            let p = crate::model::Pay {
                                rid: rid.clone(),
                                from: f.clone(),
                                dm: p.dm.clone(),
                                eb: p.eb.clone(),
                                nb: p.nb.clone(),
                            };
                            (f.clone(), p)
                        })
                        .collect();
                    if &wp != pay {
                        d("pay", format!("payloads in {rid}: {pay:?}, specified {wp:?}"));
                    }
                    let stage = crate::model::parse_rid(rid).0;
                    let q = &t.cfg.stages[stage].rounds[rid];
                    let wa: BTreeMap<String, String> = q.dst[n]
                        .iter()
                        .map(|x| (x.clone(), if q.dm { format!("{rid}>{x}") } else { "-".into() }))
                        .collect();
                    if &wa != art {
                        d("art", format!("artifacts in {rid}: {art:?}, specified {wa:?}"));
                    }
                }
            }
            check_report::<P, F>(
                &res.reports[&Id::new(n)],
                &want.rep,
                &|r| mk_rid(&job.calib, &t.templates, r),
                n,
                &trail,
                &rnd,
                &mut ds,
                n,
            )?;
        }
        if ds.is_empty() && divs.is_empty() {
            return Ok(Ok(i));
        }
        if best.as_ref().is_none_or(|b| ds.len() < b.len()) {
            best = Some(ds);
        }
    }
    divs.extend(best.unwrap_or_default());
    if divs.is_empty() {
        return Err("no terminal state in the specification".into());
    }
    Ok(Err(divs))
}

enum How<'a> {
    Sync,
    Tasks(&'a Rt, bool),
}

fn execute<P: Proto + Send + Sync, F: Fmt, EP>(
    job: &Job,
    t: &Tpl,
    how: &How<'_>,
    seed: u64,
    ep: impl Fn(&str, &Log) -> EP,
) -> Result<(Result<usize, Vec<Div>>, Logs), String>
where
    EP: EntryPoint<Id, Protocol = P>,
    SP<F>: Send + Sync,
{
    let mut r = rng(seed);
    let mut names: Vec<String> = t.cfg.stages[0].nodes.iter().cloned().collect();
    names.shuffle(&mut r);
    let mut logs = Logs::new();
    let mut eps = vec![];
    for n in &names {
        let log = new_log();
        eps.push((Signer::logged(&Id::new(n), &log), ep(n, &log)));
        logs.insert(n.clone(), log);
    }
    let fail = |aspect: &'static str, detail: String| Ok((Err(vec![Div { aspect, at: "".into(), detail }]), Logs::new()));
    let res = match how {
        How::Sync => run_sync::<EP, SP<F>>(&mut r, eps),
        How::Tasks(rt, offload) => {
            *rt.cell.lock().unwrap() = Some(t.cfg.clone());
            let run = async { tokio::time::timeout(Duration::from_secs(40), run_async::<EP, SP<F>>(&mut r, eps, *offload)).await };
            match rt.rt.block_on(run) {
                Ok(r) => r,
                Err(_) => return fail("hang", "the asynchronous runner did not finish in 40 s".into()),
            }
        }
    };
    let res = match res {
        Ok(r) => r,
        Err(e) => return fail("local", format!("the runner failed: {e:?}")),
    };
    Ok((judge::<P, F>(job, t, &res, &logs)?, logs))
}

fn one<F: Fmt>(job: &Job, t: &Tpl, rt: &Rt, how: &str, seed: u64) -> Result<(Result<usize, Vec<Div>>, Logs), String>
where
    SP<F>: Send + Sync,
{
    set_cfg(&t.cfg);
    let h = match how {
        "sync" | "sync-ext" => How::Sync,
        "async" | "async-ext" => How::Tasks(rt, false),
        _ => How::Tasks(rt, true),
    };
    if how.ends_with("-ext") {
        execute::<MP<0>, F, _>(job, t, &h, seed, |n, log| ext::entry(&t.cfg, log, n, &t.ext))
    } else {
        crate::with_shape!(
            t.cfg.shape.as_str(),
            P,
            execute::<P, F, _>(job, t, &h, seed, |_, log| P::ep(&t.cfg, log, vec![], "in".into()))
        )
    }
}

/// Runs the helpers for testing misbehaviour on executions; returns the numbers of judgements and positive ones.
fn helpers<F: Fmt>(job: &Job, t: &Tpl, seed: u64) -> Result<Result<(usize, usize), Vec<Div>>, String> {
    set_cfg(&t.cfg);
    let all: Vec<String> = t.cfg.stages[0].nodes.iter().cloned().collect();
    let shared = <MP<0> as Proto>::shared();
    let foreign = Shared { token: "foreign".into() };
    let (mut judged, mut accepted) = (0, 0);
    let fail = |aspect: &'static str, at: &str, detail: String| {
        Ok(Err(vec![Div { aspect, at: at.to_string(), detail }]))
    };
    // the order of the parties: the modified one is the last one
    let mut r = rng(seed);
    for target in &all {
        let mut names: Vec<String> = all.iter().filter(|n| *n != target).cloned().collect();
        names.shuffle(&mut r);
        names.push(target.clone());
        let run = |seed: u64| -> Result<Result<(ExecutionResult<MP<0>, SP<F>>, usize), Vec<Div>>, String> {
            let mut logs = Logs::new();
            let mut eps = vec![];
            for n in &names {
                let log = new_log();
                eps.push((Signer::logged(&Id::new(n), &log), ext::entry(&t.cfg, &log, n, &t.ext)));
                logs.insert(n.clone(), log);
            }
            let res = match run_sync::<_, SP<F>>(&mut rng(seed), eps) {
                Ok(r) => r,
                Err(e) => {
                    return Ok(Err(vec![Div { aspect: "local", at: "".into(), detail: format!("the runner failed: {e:?}") }]))
                }
            };
            Ok(judge::<MP<0>, F>(job, t, &res, &logs)?.map(|i| (res, i)))
        };
        // the results
        let (res, i) = match run(seed)? {
            Ok(x) => x,
            Err(d) => return Ok(Err(d)),
        };
        let line = &t.lines[i];
        let failed: Vec<&String> = line.nodes.iter().filter(|n| n.1.rep.out != "R").map(|n| n.0).collect();
        judged += 1;
        match res.results() {
            Ok(rs) => {
                if !failed.is_empty() {
                    return fail("judged", "results()", format!("there are results although {failed:?} have none"));
                }
                let got: BTreeMap<&String, &Vec<String>> = rs.iter().map(|(k, r)| (&k.0, &r.trail)).collect();
                for (n, w) in &line.nodes {
                    let trail: Vec<String> = w.fins.iter().map(|f| f.r.clone()).collect();
                    if got.get(n) != Some(&&trail) {
                        return fail("judged", "results()", format!("{n}: {:?}, specified {trail:?}", got.get(n)));
                    }
                }
                if got.len() != line.nodes.len() {
                    return fail("judged", "results()", format!("results of {:?}", got.keys()));
                }
                accepted += 1;
            }
            Err(text) => {
                if failed.is_empty() {
                    return fail("judged", "results()", format!("all have results, but: {text}"));
                }
                for n in &all {
                    let id = format!("Id: {:?}", Id::new(n));
                    if text.contains(&id) != failed.contains(&n) {
                        return fail("judged", "results()", format!("{failed:?} have no results; the description is: {text}"));
                    }
                }
            }
        }
        // the evidence
        let mut texts: BTreeSet<String> = ["".to_string(), "nothing of the kind".to_string()].into();
        for l in &t.lines {
            for e in l.judge.values().flat_map(|j| &j.es).filter(|e| !e.is_empty()) {
                texts.insert(format!("model error {e}"));
            }
        }
        for (k, text) in texts.iter().enumerate() {
            for shared_ok in [true, false] {
                let (res, i) = match run(seed + 1 + k as u64)? {
                    Ok(x) => x,
                    Err(d) => return Ok(Err(d)),
                };
                let want = t.lines[i].judge[target].accepts(text, shared_ok, all.len() - 1);
                let data = if shared_ok { &shared } else { &foreign };
                let got = match guarded(|| check_evidence::<MP<0>, SP<F>>(&Id::new(target), res, data, text)) {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(e)) => Err(format!("{e:?}")),
                    Err(Ok(p)) => Err(p),
                    Err(Err(p)) => return Err(p),
                };
                judged += 1;
                accepted += got.is_ok() as usize;
                if want.is_some_and(|w| w != got.is_ok()) {
                    return fail(
                        "judged",
                        target,
                        format!(
                            "the others' errors are specified to be {:?}; expecting {text:?} (shared data correct: {shared_ok}), \
                             check_evidence() returned {got:?}",
                            t.lines[i].judge[target]
                        ),
                    );
                }
            }
            // with the extensions of one party only, everything at once
            if t.ext.iter().all(|o| &o.n == target) {
                let mut eps = vec![];
                for n in &names {
                    let log = new_log();
                    eps.push((Signer::logged(&Id::new(n), &log), ext::base(&t.cfg, &log)));
                }
                let got = guarded(|| {
                    check_evidence_with_extensions::<SP<F>, _>(
                        &mut rng(seed + 1 + k as u64),
                        (eps, shared.clone()),
                        |ep| ext::extend(ep, &t.cfg, target, &t.ext),
                        text,
                    )
                });
                let got = match got {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(e)) => Err(format!("{e:?}")),
                    Err(Ok(p)) => Err(p),
                    Err(Err(p)) => return Err(p),
                };
                judged += 1;
                accepted += got.is_ok() as usize;
                let wants: BTreeSet<Option<bool>> =
                    t.lines.iter().map(|l| l.judge[target].accepts(text, true, all.len() - 1)).collect();
                if !wants.contains(&None) && !wants.contains(&Some(got.is_ok())) {
                    return fail(
                        "judged",
                        target,
                        format!("expecting {text:?}, check_evidence_with_extensions() returned {got:?}, specified {wants:?}"),
                    );
                }
            }
        }
    }
    // somebody who is not there
    let mut eps = vec![];
    for n in &all {
        let log = new_log();
        eps.push((Signer::logged(&Id::new(n), &log), ext::entry(&t.cfg, &log, n, &t.ext)));
    }
    if let Ok(res) = run_sync::<_, SP<F>>(&mut rng(seed), eps) {
        if guarded(|| check_evidence::<MP<0>, SP<F>>(&Id::new("zz"), res, &shared, "")).is_ok_and(|r| r.is_ok()) {
            return fail("judged", "zz", "check_evidence() accepts an execution without the party".into());
        }
    }
    Ok(Ok((judged, accepted)))
}

pub fn net(
    text: &str,
    calib: &Arc<Calib>,
    threads: usize,
    runs: usize,
    seed: u64,
    how: &str,
) -> Result<NSummary, String> {
    let mut hdrs = BTreeMap::new();
    let mut lines: BTreeMap<usize, Vec<NLine>> = BTreeMap::new();
    let mut sum = NSummary::default();
    let mut distinct = 0;
    for l in text.lines().filter(|l| l.starts_with("\"{")) {
        let raw: String = serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?;
        let v: Value = serde_json::from_str(&raw).map_err(|e| format!("{e}: {raw}"))?;
        if v.get("cfg").is_some() {
            let h: NHdr = serde_json::from_value(v).map_err(|e| format!("header: {e}: {raw}"))?;
            hdrs.insert(h.cfg, h);
        } else {
            let l: NLine = serde_json::from_value(v).map_err(|e| format!("line: {e}: {raw}"))?;
            sum.lines += 1;
            let ls = lines.entry(l.g).or_default();
            // (the same outcome may be printed for several states)
            if !ls.contains(&l) {
                ls.push(l);
                distinct += 1;
            }
        }
    }
    let mut cfgs = vec![];
    for (g, h) in hdrs {
        let hdr = Hdr {
            cfg: g,
            me: h.stages[0].nodes.iter().next().cloned().unwrap_or_default(),
            shape: h.shape.clone(),
            stages: h.stages.clone(),
            menu: vec![],
        };
        let w = guarded(|| crate::with_shape!(h.shape.as_str(), P, World::<Json>::new::<P>(&hdr, calib)));
        let w = match w {
            Ok(Ok(w)) => w,
            Ok(Err(e)) => return Err(format!("{}cfg {g}: {e}", if e.contains("HONEST") { "HONEST " } else { "" })),
            Err(Ok(p)) => return Err(format!("LIBPANIC cfg {g}: {p}")),
            Err(Err(p)) => return Err(format!("cfg {g}: {p}")),
        };
        cfgs.push(Tpl {
            cfg: w.cfg.clone(),
            ext: h.ext,
            templates: w.rr.templates.clone(),
            lines: lines.remove(&g).unwrap_or_default(),
        });
    }
    sum.outcomes = distinct;
    sum.configurations = cfgs.len();
    let job = Arc::new(Job {
        calib: calib.clone(),
        cfgs,
        runs,
        seed,
        sync: how.contains("sync") && how != "async",
        judge: how.contains("judge"),
        tasks: how.contains("async"),
    });
    let sum = Arc::new(Mutex::new(sum));
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let busy: Arc<Mutex<BTreeMap<usize, (Instant, Value)>>> = Default::default();
    for th in 0..threads {
        let (job, sum, next, done, busy) = (job.clone(), sum.clone(), next.clone(), done.clone(), busy.clone());
        std::thread::spawn(move || {
            let rt = Rt::new(2);
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some(t) = job.cfgs.get(i) else { break };
                config(&job, t, i, &rt, &sum, |v| {
                    let mut b = busy.lock().unwrap();
                    match v {
                        Some(v) => b.insert(th, (Instant::now(), v)),
                        None => b.remove(&th),
                    };
                });
            }
            rt.rt.shutdown_background();
            done.fetch_add(1, Ordering::SeqCst);
        });
    }
    // (threads that hang are left behind, and end with the process)
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(20));
        let b = busy.lock().unwrap();
        let stuck: Vec<Value> =
            b.values().filter(|x| x.0.elapsed() > Duration::from_secs(110)).map(|x| x.1.clone()).collect();
        if !stuck.is_empty() {
            let mut s = sum.lock().unwrap();
            for v in stuck {
                s.diverged += 1;
                s.divergences.push(json!({"aspect": "hang", "format": v["how"], "run": v,
                    "detail": format!("the runner did not finish in 60 s: {v}")}));
            }
            break;
        }
    }
    let s = std::mem::take(&mut *sum.lock().unwrap());
    Ok(s)
}

fn config(job: &Job, t: &Tpl, i: usize, rt: &Rt, sum: &Mutex<NSummary>, busy: impl Fn(Option<Value>)) {
    let mut hows = vec![];
    let honest = t.ext.iter().all(|o| o.k == "none");
    if job.sync {
        if t.ext.is_empty() {
            hows.push("sync");
        }
        if t.cfg.shape == "single" {
            hows.push("sync-ext");
        }
    }
    if job.tasks && honest {
        if t.ext.is_empty() {
            hows.extend(["async", "async-par"]);
        }
        if t.cfg.shape == "single" {
            hows.push("async-ext");
        }
    }
    if job.judge && t.cfg.shape == "single" {
        hows.push("judge");
    }
    let mut seen = BTreeSet::new();
    for how in hows {
        let runs = if how.starts_with("async") || how == "judge" { job.runs.div_ceil(4) } else { job.runs };
        let mut before = Logs::new();
        for k in 0..runs {
            let seed = job.seed.wrapping_mul(1_000_003) + (i * 10_000 + k) as u64;
            for f in ["json", "binary"] {
                let what = json!({"cfg": i + 1, "how": how, "format": f, "seed": seed});
                busy(Some(what.clone()));
                let r = guarded(|| match f {
                    _ if how == "judge" => {
                        let r = if f == "json" { helpers::<Json>(job, t, seed) } else { helpers::<Bin>(job, t, seed) };
                        Ok((
                            match r? {
                                Ok((n, ok)) => {
                                    let mut s = sum.lock().unwrap();
                                    s.judged += n;
                                    s.accepted += ok;
                                    Ok(usize::MAX)
                                }
                                Err(d) => Err(d),
                            },
                            Logs::new(),
                        ))
                    }
                    "json" => one::<Json>(job, t, rt, how, seed),
                    _ => one::<Bin>(job, t, rt, how, seed),
                });
                busy(None);
                let mut s = sum.lock().unwrap();
                *s.runs.entry(format!("{how} {f}")).or_default() += 1;
                let divs = match r {
                    Ok(Ok((Ok(v), logs))) => {
                        if v != usize::MAX {
                            seen.insert(v);
                        }
                        s.draws += logs.values().map(|l| l.drawn()).sum::<usize>();
                        // (nor may different generators result in the same randomness)
                        let rep = LogInner::repeated(before.values().chain(logs.values()).map(|l| &**l)).pop();
                        if f == "json" {
                            before = logs;
                        }
                        match rep {
                            Some(r) if f == "json" => vec![Div { aspect: "random", at: "two executions".into(), detail: r }],
                            _ => continue,
                        }
                    }
                    Ok(Ok((Err(d), _))) => d,
                    Ok(Err(e)) | Err(Err(e)) => {
                        if s.tool_errors.len() < 5 {
                            s.tool_errors.push(format!("{e} [{what}]"));
                        }
                        continue;
                    }
                    Err(Ok(p)) => vec![Div { aspect: "panic", at: "".into(), detail: p }],
                };
                s.diverged += 1;
                if s.divergences.len() < 60 {
                    s.divergences.push(json!({
                        "aspect": divs[0].aspect, "format": how, "run": what, "divergences": divs,
                        "extensions": format!("{:?}", t.ext),
                        "detail": format!("{what}, extensions {:?}: {} at {}: {}", t.ext, divs[0].aspect, divs[0].at, divs[0].detail),
                    }));
                }
                if divs[0].aspect == "hang" {
                    return;
                }
            }
        }
    }
    sum.lock().unwrap().reached += seen.len();
}
