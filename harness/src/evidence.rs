//! Evidence objects described by the TLA+ model (spec/Evidence.tla), built for the real code: genuine evidence
//! comes from a session, the rest is made of it by replacing the message parts and labels in its serialized form.
//! Where the parts are is found by looking for them, so nothing depends on the names of fields.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::{Arc, Mutex},
};

use manul::session::{Evidence, SessionReport};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    craft::{at_mut, body, decode_b64, donor, sid, CPay, Calib},
    exec::{Node, Step},
    model::{map_or_empty, parse_rid, set_cfg, shared_token, split_echo, tag, Body, Proto, Seen, VLOG},
    replay::{guarded, mk_rid, Hdr, World},
    sp::{Fmt, Id, SP},
};

#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash)]
pub struct EntO {
    by: String,
    s: String,
    r: String,
    k: String,
    v: String,
    g: String,
}
#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash)]
pub struct PartO {
    by: String,
    s: String,
    r: String,
    k: String,
    c: String,
    g: String,
    #[serde(deserialize_with = "map_or_empty")]
    em: BTreeMap<String, EntO>,
}
#[derive(Debug, Clone, Deserialize)]
pub struct ObjO {
    t: String,
    e: String,
    #[serde(deserialize_with = "map_or_empty")]
    slots: BTreeMap<String, PartO>,
    #[serde(deserialize_with = "map_or_empty")]
    keys: BTreeMap<String, String>,
    #[serde(deserialize_with = "map_or_empty")]
    who: BTreeMap<String, String>,
    acc: String,
    entry: EntO,
    guilty: String,
}
#[derive(Debug, Clone, Deserialize)]
struct BodyO {
    by: String,
    r: String,
    k: String,
    c: String,
}
#[derive(Debug, Clone, Deserialize)]
struct SeesO {
    #[serde(deserialize_with = "map_or_empty")]
    this: BTreeMap<String, BodyO>,
    #[serde(deserialize_with = "map_or_empty")]
    prev: BTreeMap<String, Value>,
    #[serde(deserialize_with = "map_or_empty")]
    echos: BTreeMap<String, Value>,
}
#[derive(Debug, Clone, Deserialize)]
struct LineO {
    t: usize,
    o: ObjO,
    v: bool,
    genuine: bool,
    sees: SeesO,
    #[serde(skip)]
    raw: String,
}

/// The serialized protocol error of the model protocol.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ErrData {
    name: String,
    this: BTreeSet<String>,
    prev: Vec<(u8, BTreeSet<String>)>,
    echos: Vec<u8>,
}

type Path = Vec<String>;

fn find(v: &Value, target: &Value, path: &mut Path, out: &mut Vec<Path>) {
    if v == target {
        out.push(path.clone());
        return;
    }
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                find(x, target, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                find(x, target, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn leaves(v: &Value, path: &mut Path, out: &mut Vec<(Path, String)>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::String(s) => out.push((path.clone(), s.clone())),
        _ => {}
    }
}

struct Tpl {
    json: Value,
    /// "part", "entry", "this.*": where it is; the others: the container
    place: BTreeMap<String, Path>,
    guilty: Path,
    acc: Vec<Path>,
    error: Option<(Path, bool)>,
    obj: ObjO,
    hdr: Hdr,
}

struct Maker<'a> {
    calib: &'a Calib,
    templates: &'a BTreeMap<usize, manul::protocol::RoundId>,
    me: Id,
    parts: Mutex<HashMap<PartO, Option<Value>>>,
}

impl Maker<'_> {
    fn rid(&self, r: &str) -> Result<manul::protocol::RoundId, String> {
        mk_rid(self.calib, self.templates, r)
    }
    /// `None`: not possible in this format
    fn part<F: Fmt>(&self, p: &PartO) -> Result<Option<Value>, String> {
        if let Some(v) = self.parts.lock().unwrap().get(p) {
            return Ok(v.clone());
        }
        let v = self.part_uncached::<F>(p)?;
        self.parts.lock().unwrap().insert(p.clone(), v.clone());
        Ok(v)
    }
    fn part_uncached<F: Fmt>(&self, p: &PartO) -> Result<Option<Value>, String> {
        let rid = self.rid(&p.r)?;
        let (base, echo) = split_echo(&p.r);
        let by = Id::new(&p.by);
        let pay = match p.c.as_str() {
            "none" => None,
            "garb" => Some(CPay::Garb),
            "echo" => {
                let normal =
                    |w: &String, e: &EntO| e.by == *w && e.g == "ok" && e.s == p.s && e.k == "eb" && e.r == base;
                if p.g == "ok" && echo && !p.em.contains_key(&p.by) && p.em.iter().all(|(w, e)| normal(w, e)) {
                    let authors: Vec<_> =
                        p.em.iter().map(|(w, e)| (Id::new(w), body(&tag(w, base, "eb", ""), &e.v))).collect();
                    let (m, _) = donor::<F>(&by, &sid::<F>(&p.s), &self.rid(base)?, &authors, &self.me)?;
                    let v = serde_json::to_value(&m).map_err(|e| e.to_string())?;
                    return Ok(Some(v[self.calib.kinds["nb"].as_str()].clone()));
                }
                if !F::JSON {
                    return Ok(None);
                }
                let mut entries = BTreeMap::new();
                for (w, e) in &p.em {
                    entries.insert(Id::new(w), self.entry(e, base)?);
                }
                Some(CPay::Val(self.calib.pack(&entries)?))
            }
            c => Some(body(&tag(&p.by, base, &p.k, &self.me.0), c)),
        };
        Ok(Some(self.calib.part_g::<F>(&p.k, &by, &p.g, &p.s, &rid, &self.me, pay)?))
    }
    fn entry(&self, e: &EntO, base: &str) -> Result<(Value, Value), String> {
        let b = body(&tag(&e.by, base, "eb", ""), &e.v);
        self.calib.entry(&Id::new(&e.by), &e.s, &self.rid(&e.r)?, &e.k, b, &e.g)
    }
}

/// `Ok(Err)`: what is wrong with what the code did
#[allow(clippy::type_complexity)]
fn genuine<P: Proto, F: Fmt>(w: &World<F>, obj: &ObjO) -> Result<Option<Result<Value, String>>, String> {
    let mut n = match Node::<P, F>::start(&w.cfg, &w.hdr.me, &w.sid) {
        Ok(n) => n,
        Err(e) => return Ok(Some(Err(format!("{e:?}")))),
    };
    let mut report: Option<SessionReport<P, SP<F>>> = None;
    for mat in &w.mats {
        let Some(mat) = mat else { return Ok(None) };
        if report.is_some() {
            break;
        }
        let r = n.deliver(&mat.from, mat.msg.clone()).and_then(|o| {
            if o == "P" {
                n.add(&mat.from.0)?;
            }
            Ok(())
        });
        if let Err(e) = r {
            return Ok(Some(Err(format!("{e:?}"))));
        }
        while report.is_none() {
            if let Err(e) = n.process_queue() {
                return Ok(Some(Err(format!("{e:?}"))));
            }
            if n.can_finalize() != "Y" {
                break;
            }
            match n.finalize() {
                Ok(Step::Next(_)) => {}
                Ok(Step::Done(r)) => report = Some(r),
                Err(e) => return Ok(Some(Err(format!("{e:?}")))),
            }
        }
    }
    let report = match report {
        Some(r) => r,
        None => match n.terminate(false) {
            Ok(r) => r,
            Err(e) => return Ok(Some(Err(format!("{e:?}")))),
        },
    };
    let names: Vec<&String> = report.provable_errors.keys().map(|x| &x.0).collect();
    match report.provable_errors.get(&Id::new(&obj.guilty)) {
        Some(ev) if names.len() == 1 => Ok(Some(Ok(serde_json::to_value(ev).map_err(|e| e.to_string())?))),
        _ => Ok(Some(Err(format!(
            "evidence against {:?} expected, there is evidence against {names:?}; unprovable: {:?}",
            obj.guilty,
            report.unprovable_errors.keys().collect::<Vec<_>>()
        )))),
    }
}

fn container(path: &Path, levels: usize) -> Option<Path> {
    // ... container, index of the pair, "1", (again)
    let mut p = path.clone();
    for _ in 0..levels {
        if p.last()? != "1" {
            return None;
        }
        p.pop();
        p.pop()?.parse::<usize>().ok()?;
    }
    Some(p)
}

fn template<F: Fmt>(mk: &Maker, hdr: &Hdr, obj: &ObjO, json: Value) -> Result<Option<Result<Tpl, String>>, String> {
    let mut place = BTreeMap::new();
    let mut targets: Vec<(String, Value)> = vec![];
    for (x, p) in &obj.slots {
        let Some(v) = mk.part::<F>(p)? else { return Ok(None) };
        targets.push((x.clone(), v));
    }
    if obj.t == "mism" && F::JSON {
        targets.push(("entry".into(), mk.entry(&obj.entry, split_echo(&obj.entry.r).0)?.1));
    }
    for (x, v) in targets {
        let mut out = vec![];
        find(&json, &v, &mut vec![], &mut out);
        if out.is_empty() {
            return Ok(Some(Err(format!("the evidence does not contain {x}, as it was sent"))));
        }
        let path = if x.starts_with("prev.") || x.starts_with("hash.") {
            out.iter().find_map(|p| container(p, 1))
        } else if x.starts_with("oth.") {
            out.iter().find_map(|p| container(p, 2))
        } else {
            out.into_iter().next()
        };
        let Some(path) = path else { return Ok(Some(Err(format!("the evidence does not contain {x} under its round")))) };
        place.insert(x, path);
    }
    let mut ls = vec![];
    leaves(&json, &mut vec![], &mut ls);
    let Some(guilty) = ls.iter().find(|(p, s)| p.len() == 1 && *s == obj.guilty).map(|x| x.0.clone()) else {
        return Ok(Some(Err("the evidence does not name the guilty party".into())));
    };
    let acc: Vec<Path> =
        ls.iter().filter(|(p, s)| p.len() > 1 && !obj.acc.is_empty() && *s == obj.acc).map(|x| x.0.clone()).collect();
    if !obj.acc.is_empty() && acc.is_empty() {
        return Err(format!("no mention of {} in {json}", obj.acc));
    }
    let error = ls.iter().find_map(|(p, s)| {
        let hexed = s.strip_prefix("0x").and_then(|h| hex::decode(h).ok());
        let (bytes, hex) = match (hexed, decode_b64(s)) {
            (Some(b), _) => (b, true),
            (None, Some(b)) => (b, false),
            _ => return None,
        };
        let d = F::de::<ErrData>(&bytes).ok()?;
        (d.name == obj.e && F::ser(&d).ok()? == bytes).then(|| (p.clone(), hex))
    });
    if obj.t == "prot" && error.is_none() {
        return Err(format!("no protocol error in {json}"));
    }
    Ok(Some(Ok(Tpl { json, place, guilty, acc, error, obj: obj.clone(), hdr: hdr.clone() })))
}

/// The object in its serialized form; `None` if it cannot be expressed.
fn build<F: Fmt>(mk: &Maker, t: &Tpl, o: &ObjO) -> Result<Option<Value>, String> {
    let mut v = t.json.clone();
    let g = serde_json::to_value(Id::new(&o.guilty)).expect("id");
    *at_mut(&mut v, &t.guilty) = g;
    let acc = serde_json::to_value(Id::new(&o.acc)).expect("id");
    for p in &t.acc {
        *at_mut(&mut v, p) = acc.clone();
    }
    if o.t == "mism" && o.entry != t.obj.entry {
        let Some(p) = t.place.get("entry") else { return Ok(None) };
        *at_mut(&mut v, p) = mk.entry(&o.entry, split_echo(&o.entry.r).0)?.1;
    }
    if o.e != t.obj.e {
        let (p, hex) = t.error.as_ref().ok_or("error data")?;
        let bytes = if o.e == "unit" {
            F::ser(&())?
        } else {
            let e = t.hdr.stages.iter().find_map(|s| s.errs.get(&o.e)).ok_or("no such error")?;
            F::ser(&ErrData {
                name: o.e.clone(),
                this: e.this.clone(),
                prev: e.prev.iter().map(|(r, ps)| (parse_rid(r).1, ps.clone())).collect(),
                echos: e.echos.iter().map(|r| parse_rid(r).1).collect(),
            })?
        };
        use base64::Engine;
        // (whichever alphabet and padding the original has)
        let text = if *hex {
            format!("0x{}", fast::hex(bytes.as_ref()))
        } else {
            let orig = crate::craft::at(&t.json, p).as_str().unwrap_or_default().to_string();
            let raw = decode_b64(&orig).ok_or("error data")?;
            use base64::engine::general_purpose as gp;
            if gp::STANDARD.encode(&raw) == orig {
                gp::STANDARD.encode(bytes)
            } else if gp::STANDARD_NO_PAD.encode(&raw) == orig {
                gp::STANDARD_NO_PAD.encode(bytes)
            } else if gp::URL_SAFE.encode(&raw) == orig {
                gp::URL_SAFE.encode(bytes)
            } else {
                gp::URL_SAFE_NO_PAD.encode(bytes)
            }
        };
        *at_mut(&mut v, p) = text.into();
    }
    // parts that stand alone, and the contents of the maps
    let mut maps: BTreeMap<&Path, BTreeMap<(usize, u8), (Value, Vec<(String, Value)>)>> = BTreeMap::new();
    for (x, place) in &t.place {
        if x == "entry" {
            continue;
        }
        let part = match o.slots.get(x) {
            Some(p) => match mk.part::<F>(p)? {
                Some(v) => Some(v),
                None => return Ok(None),
            },
            None => None,
        };
        if x == "part" || x.starts_with("this.") {
            *at_mut(&mut v, place) = part.unwrap_or(Value::Null);
            continue;
        }
        let m = maps.entry(place).or_default();
        let Some(part) = part else { continue };
        let r = &o.keys[x];
        let key = serde_json::to_value(mk.rid(r)?).map_err(|e| e.to_string())?;
        let (_, list) = m.entry(parse_rid(r)).or_insert_with(|| (key, vec![]));
        let who = o.who.get(x).cloned().unwrap_or_default();
        if list.iter().any(|(w, _)| *w == who) {
            return Ok(None);
        }
        list.push((who, part));
    }
    // an empty collection of broadcasts is not the same as a missing one
    if let Some(place) = t.place.iter().find(|(x, _)| x.starts_with("oth.")).map(|x| x.1) {
        for (x, r) in &o.keys {
            if x.starts_with("hash.") && o.slots.contains_key(x) {
                let key = serde_json::to_value(mk.rid(r)?).map_err(|e| e.to_string())?;
                maps.entry(place).or_default().entry(parse_rid(r)).or_insert_with(|| (key, vec![]));
            }
        }
    }
    for (place, m) in maps {
        let pairs: Vec<Value> = m
            .into_values()
            .map(|(key, mut list)| {
                list.sort_by(|a, b| a.0.cmp(&b.0));
                if list.len() == 1 && list[0].0.is_empty() {
                    json!([key, list[0].1])
                } else {
                    let inner: Vec<Value> = list.into_iter().map(|(w, p)| json!([Id::new(&w), p])).collect();
                    json!([key, inner])
                }
            })
            .collect();
        *at_mut(&mut v, place) = pairs.into();
    }
    Ok(Some(v))
}

fn seen(l: &LineO, me: &str, sid_of: &dyn Fn(&str) -> Vec<u8>) -> Result<Seen, String> {
    let trigger = ["this.dm", "this.eb", "this.nb"].iter().find_map(|k| l.o.slots.get(*k)).ok_or("no trigger")?;
    let stage = parse_rid(&trigger.r).0;
    let b = |x: BodyO| Body { t: tag(&x.by, &x.r, &x.k, if x.k == "dm" { me } else { "" }), c: x.c };
    let inner = |v: &Value| -> Result<BTreeMap<String, Body>, String> {
        if v.as_array().is_some_and(|a| a.is_empty()) {
            return Ok(BTreeMap::new());
        }
        let m: BTreeMap<String, BodyO> = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(m.into_iter().map(|(k, x)| (k, b(x))).collect())
    };
    let outer = |m: &BTreeMap<String, Value>| -> Result<BTreeMap<String, BTreeMap<String, Body>>, String> {
        m.iter().map(|(k, v)| Ok((k.clone(), inner(v)?))).collect()
    };
    Ok(Seen {
        stage,
        rid: trigger.r.clone(),
        from: Id::new(&l.o.guilty),
        rnd: sid_of(&trigger.s),
        shared: shared_token(stage),
        err: l.o.e.clone(),
        this: l.sees.this.clone().into_iter().map(|(k, x)| (k, b(x))).collect(),
        prev: outer(&l.sees.prev)?,
        echos: outer(&l.sees.echos)?,
        unexpected: vec![],
    })
}

#[derive(Debug, Default, Serialize)]
pub struct EvSummary {
    lines: usize,
    configurations: usize,
    built: BTreeMap<String, usize>,
    skipped: BTreeMap<String, usize>,
    accepted: BTreeMap<String, usize>,
    templates: BTreeMap<String, usize>,
    divergences: Vec<Value>,
    diverged: usize,
    tool_errors: Vec<String>,
}

enum Out {
    Fine(bool),
    Skip,
    Bad(&'static str, String),
    Tool(String),
}

fn judge<P: Proto, F: Fmt>(mk: &Maker, t: &Tpl, l: &LineO) -> Out {
    let v = match build::<F>(mk, t, &l.o) {
        Ok(Some(v)) => v,
        Ok(None) => return Out::Skip,
        Err(e) => return Out::Tool(e),
    };
    if l.genuine && v != t.json {
        return Out::Tool(format!("rebuilt evidence differs: {v} {}", t.json));
    }
    let mut verdicts = vec![];
    let text = v.to_string();
    match serde_json::from_str::<Evidence<P, SP<F>>>(&text) {
        Err(e) => verdicts.push((Err(format!("deserialization: {e}")), vec![], "")),
        Ok(ev) => {
            if ev.guilty_party().0 != l.o.guilty {
                return Out::Bad("guilty", format!("accuses {:?} instead of {}", ev.guilty_party(), l.o.guilty));
            }
            VLOG.with(|v| v.borrow_mut().clear());
            let r = ev.verify(&P::shared()).map_err(|e| format!("{e:?}"));
            verdicts.push((r, VLOG.with(|v| std::mem::take(&mut *v.borrow_mut())), ""));
            if l.genuine {
                match F::ser(&ev).and_then(|b| F::de::<Evidence<P, SP<F>>>(&b)) {
                    Ok(ev) => {
                        let r = ev.verify(&P::shared()).map_err(|e| format!("{e:?}"));
                        verdicts.push((r, VLOG.with(|v| std::mem::take(&mut *v.borrow_mut())), " after the wire format"));
                    }
                    Err(e) => return Out::Bad("lost", format!("does not survive the wire format: {e}")),
                }
            }
        }
    }
    for (r, log, how) in verdicts {
        match (l.v, r) {
            (true, Err(e)) if l.genuine => return Out::Bad("lost", format!("genuine evidence does not verify{how}: {e}")),
            (true, Err(e)) => return Out::Bad("rejected", format!("evidence of misbehaviour does not verify{how}: {e}")),
            (false, Ok(())) => {
                let honest = l.o.guilty != "m";
                let a = if honest { "framed" } else { "accepted" };
                return Out::Bad(a, format!("what proves nothing verifies against {}{how}", l.o.guilty));
            }
            (false, Err(_)) => {}
            (true, Ok(())) => {
                if l.o.t == "prot" {
                    let want = match seen(l, &mk.me.0, &|s| sid::<F>(s).as_ref().to_vec()) {
                        Ok(w) => w,
                        Err(e) => return Out::Tool(e),
                    };
                    let [mut got] = match <[Seen; 1]>::try_from(log) {
                        Ok(g) => g,
                        Err(g) => return Out::Bad("sees", format!("the check of the protocol was made {} times", g.len())),
                    };
                    if !l.genuine {
                        got.unexpected.clear();
                    }
                    if want != got {
                        return Out::Bad("sees", format!("specified to see {want:?}, saw {got:?}"));
                    }
                }
            }
        }
    }
    Out::Fine(l.v)
}

fn run_format<P: Proto, F: Fmt + Sync>(
    calib: &Arc<Calib>,
    hdrs: &[(&Hdr, &ObjO)],
    lines: &[&LineO],
    threads: usize,
    sum: &mut EvSummary,
) -> Result<(), String> {
    let mut tpls: BTreeMap<usize, Tpl> = BTreeMap::new();
    let mut world0: Option<World<F>> = None;
    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
    for (h, obj) in hdrs {
        let w = match guarded(|| World::<F>::new::<P>(h, calib)) {
            Ok(w) => w?,
            Err(Ok(p)) => {
                bad.insert(h.cfg, p);
                continue;
            }
            Err(Err(e)) => return Err(e),
        };
        let mk = Maker { calib, templates: &w.rr.templates, me: Id::new(&h.me), parts: Default::default() };
        let got = match guarded(|| {
            Ok::<_, String>(match genuine::<P, F>(&w, obj)? {
                Some(Ok(json)) => template::<F>(&mk, h, obj, json)?,
                Some(Err(e)) => Some(Err(e)),
                None => None,
            })
        }) {
            Ok(r) => r?,
            Err(Ok(p)) => Some(Err(p)),
            Err(Err(e)) => return Err(e),
        };
        match got {
            Some(Ok(t)) => {
                tpls.insert(h.cfg, t);
            }
            Some(Err(e)) => {
                bad.insert(h.cfg, e);
            }
            None => {}
        }
        if world0.is_none() {
            world0 = Some(w);
        }
    }
    sum.templates.insert(F::NAME.into(), sum.templates.get(F::NAME).copied().unwrap_or(0) + tpls.len());
    for (cfg, e) in bad {
        let h = hdrs.iter().find(|h| h.0.cfg == cfg).expect("header");
        sum.diverged += 1;
        sum.divergences.push(json!({"format": F::NAME, "aspect": "source", "cfg": cfg, "detail": e,
                                    "script": h.0.menu, "obj": format!("{:?}", h.1)}));
    }
    let Some(w) = world0 else { return Ok(()) };
    let cfg = w.cfg.clone();
    let mk = Maker { calib, templates: &w.rr.templates, me: Id::new(&w.hdr.me), parts: Default::default() };
    let (mk, tpls) = (&mk, &tpls);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let next = &next;
    let mut results: Vec<(usize, Out)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let cfg = cfg.clone();
                s.spawn(move || {
                    set_cfg(&cfg);
                    let mut mine = vec![];
                    loop {
                        let at = next.fetch_add(64, std::sync::atomic::Ordering::Relaxed);
                        if at >= lines.len() {
                            break;
                        }
                        for (i, l) in lines.iter().enumerate().skip(at).take(64) {
                            // a part of a large number of objects is enough to exercise the second format
                            if F::NAME != "json" && lines.len() > 60000 && i % 4 != 0 {
                                mine.push((i, Out::Skip));
                                continue;
                            }
                            let o = match tpls.get(&l.t) {
                                None => Out::Skip,
                                Some(t) => match guarded(|| judge::<P, F>(mk, t, l)) {
                                    Ok(o) => o,
                                    Err(Ok(p)) => Out::Bad("panic", p),
                                    Err(Err(e)) => Out::Tool(e),
                                },
                            };
                            mine.push((i, o));
                        }
                    }
                    mine
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![(0, Out::Tool("a thread died".into()))])).collect()
    });
    results.sort_by_key(|(i, _)| *i);
    let mut per: BTreeMap<&'static str, usize> = BTreeMap::new();
    for (i, r) in results {
        let l = &lines[i];
        match r {
            Out::Fine(v) => {
                *sum.built.entry(F::NAME.into()).or_default() += 1;
                if v {
                    *sum.accepted.entry(F::NAME.into()).or_default() += 1;
                }
            }
            Out::Skip => *sum.skipped.entry(F::NAME.into()).or_default() += 1,
            Out::Tool(e) => {
                if sum.tool_errors.len() < 5 {
                    sum.tool_errors.push(format!("{e} [{}]", l.raw));
                }
            }
            Out::Bad(a, d) => {
                sum.diverged += 1;
                let n = per.entry(a).or_default();
                *n += 1;
                if *n <= 40 {
                    sum.divergences.push(json!({"format": F::NAME, "aspect": a, "cfg": l.t, "detail": d,
                        "object": serde_json::from_str::<Value>(&l.raw).unwrap_or_default()}));
                }
            }
        }
    }
    Ok(())
}

pub fn evidence(text: &str, calib: &Arc<Calib>, threads: usize) -> Result<EvSummary, String> {
    let mut hdrs: BTreeMap<usize, (Hdr, ObjO)> = BTreeMap::new();
    let mut lines: Vec<LineO> = vec![];
    let texts: Vec<&str> = text.lines().filter(|l| l.starts_with("\"{")).collect();
    let parse = |l: &str| -> Result<Result<(Hdr, ObjO), LineO>, String> {
        let raw: String = serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?;
        if raw.starts_with("{\"t\"") || !raw.contains("\"cfg\"") {
            let mut l: LineO = serde_json::from_str(&raw).map_err(|e| format!("{e}: {raw}"))?;
            l.raw = raw;
            return Ok(Err(l));
        }
        let v: Value = serde_json::from_str(&raw).map_err(|e| format!("{e}: {raw}"))?;
        let obj = serde_json::from_value(v["obj"].clone()).map_err(|e| format!("object: {e}: {raw}"))?;
        let h: Hdr = serde_json::from_value(v).map_err(|e| format!("header: {e}: {raw}"))?;
        Ok(Ok((h, obj)))
    };
    let parsed: Vec<Vec<Result<Result<(Hdr, ObjO), LineO>, String>>> = std::thread::scope(|s| {
        let chunk = texts.len().div_ceil(threads).max(1);
        let hs: Vec<_> =
            texts.chunks(chunk).map(|ls| s.spawn(move || ls.iter().map(|l| parse(l)).collect::<Vec<_>>())).collect();
        hs.into_iter().map(|h| h.join().expect("no panics in parsing")).collect()
    });
    for x in parsed.into_iter().flatten() {
        match x? {
            Ok((h, obj)) => {
                hdrs.insert(h.cfg, (h, obj));
            }
            Err(l) => lines.push(l),
        }
    }
    let mut sum = EvSummary { lines: lines.len(), configurations: hdrs.len(), ..Default::default() };
    // templates of one configuration of the protocol at a time
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, (h, _)) in &hdrs {
        groups.entry(format!("{}{:?}", h.shape, h.stages)).or_default().push(*i);
    }
    for is in groups.values() {
        let hs: Vec<_> = is.iter().map(|i| (&hdrs[i].0, &hdrs[i].1)).collect();
        let ls: Vec<&LineO> = lines.iter().filter(|l| is.contains(&l.t)).collect();
        crate::with_shape!(hs[0].0.shape.as_str(), P, {
            run_format::<P, crate::sp::Json>(calib, &hs, &ls, threads, &mut sum)?;
            run_format::<P, crate::sp::Bin>(calib, &hs, &ls, threads, &mut sum)?;
        });
    }
    Ok(sum)
}
