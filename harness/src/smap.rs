//! Serializable maps: builds, encodes and decodes them as specified by SMap.tla, for several types of keys
//! and values and in several formats.
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
};

use manul::utils::SerializableMap;
use rand::{seq::SliceRandom, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    craft::rng,
    replay::guarded,
    sp::{Bin, Fmt, Json},
};

/// Wire formats.
trait Codec {
    const NAME: &'static str;
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String>;
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String>;
}
struct J;
struct B;
struct D;
impl Codec for J {
    const NAME: &'static str = "json";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        <Json as Fmt>::ser(v)
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        <Json as Fmt>::de(b)
    }
}
impl Codec for B {
    const NAME: &'static str = "binary";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        <Bin as Fmt>::ser(v)
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        <Bin as Fmt>::de(b)
    }
}
impl Codec for D {
    const NAME: &'static str = "der";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        serde_asn1_der::to_vec(v).map_err(|e| e.to_string())
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        serde_asn1_der::from_bytes(b).map_err(|e| e.to_string())
    }
}

/// Keys in the order of the numbers that the specification uses.
trait Key: Ord + Clone + Debug + Serialize + DeserializeOwned {
    const MAX: usize = usize::MAX;
    fn key(n: usize) -> Self;
}
impl Key for u8 {
    const MAX: usize = 255;
    fn key(n: usize) -> Self {
        n as u8
    }
}
impl Key for u32 {
    fn key(n: usize) -> Self {
        (n * 1000) as u32
    }
}
impl Key for String {
    fn key(n: usize) -> Self {
        format!("\"{n:05}\u{e9}\n")
    }
}
impl Key for (u8, String) {
    fn key(n: usize) -> Self {
        ((n / 256) as u8, format!("{:03}", n % 256))
    }
}
impl Key for Vec<u8> {
    fn key(n: usize) -> Self {
        (n as u16).to_be_bytes().to_vec()
    }
}
/// Ordered the other way round than its encodings.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
struct Rev(u32);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Key for Rev {
    fn key(n: usize) -> Self {
        Rev(100_000 - n as u32)
    }
}

trait Val: Clone + PartialEq + Debug + Serialize + DeserializeOwned {
    fn val(n: usize) -> Self;
}
impl Val for u8 {
    fn val(n: usize) -> Self {
        n as u8
    }
}
impl Val for String {
    fn val(n: usize) -> Self {
        "]x,".repeat(n - 1)
    }
}
impl Val for Vec<u32> {
    fn val(n: usize) -> Self {
        (0..n as u32 - 1).collect()
    }
}
impl Val for SerializableMap<u8, String> {
    fn val(n: usize) -> Self {
        (1..n).map(|i| (i as u8, "v".to_string())).collect()
    }
}
impl Val for () {
    fn val(_n: usize) -> Self {}
}

#[derive(Debug, Clone, Deserialize)]
struct MLine {
    kind: String,
    #[serde(default)]
    ops: Vec<(String, usize, usize)>,
    #[serde(default)]
    entries: Vec<(i64, usize)>,
    #[serde(default)]
    ok: bool,
    pairs: Vec<(usize, usize)>,
}

/// An entry of an encoded map: a pair, or something else.
#[derive(Clone, Serialize)]
#[serde(untagged)]
enum Ent<K, V> {
    Pair((K, V)),
    One((K,)),
    Three((K, V, V)),
    Num(u64),
    Seq(Vec<u64>),
}

#[derive(Debug, Default, Serialize)]
pub struct MSummary {
    pub lines: usize,
    pub checks: BTreeMap<String, usize>,
    pub cut: usize,
    pub diverged: usize,
    pub tool_errors: Vec<String>,
    pub divergences: Vec<Value>,
}

fn run<C: Codec, K: Key, V: Val>(l: &MLine, salt: u64, cut: &mut usize) -> Result<bool, (&'static str, String)> {
    type M<K, V> = SerializableMap<K, V>;
    let mut r = rng(salt);
    let pair = |k: usize, v: usize| (K::key(k), V::val(v));
    let want: Vec<(K, V)> = l.pairs.iter().map(|(k, v)| pair(*k, *v)).collect();
    let largest = l.pairs.iter().map(|x| x.0).chain(l.entries.iter().map(|x| x.0.max(0) as usize)).max().unwrap_or(0);
    if largest > K::MAX {
        return Ok(false);
    }
    let same = |m: &M<K, V>| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>() == want;
    let good = |b: &[u8], what: &str| -> Result<(), (&'static str, String)> {
        match C::de::<M<K, V>>(b) {
            Ok(m) if same(&m) => {
                if BTreeMap::from(m) != want.iter().cloned().collect() {
                    return Err(("decoded", format!("{what}: converted to a different map")));
                }
            }
            Ok(m) => return Err(("decoded", format!("{what}: decoded as {m:?}, specified {want:?}"))),
            Err(e) => return Err(("rejected", format!("{what}: rejected: {e}"))),
        }
        Ok(())
    };
    let bytes = if l.kind == "build" {
        let mut a: M<K, V> = BTreeMap::new().into();
        let mut b: BTreeMap<K, V> = BTreeMap::new();
        for (o, k, v) in &l.ops {
            if o == "I" {
                let (k, v) = pair(*k, *v);
                a.insert(k.clone(), v.clone());
                b.insert(k, v);
            } else {
                a.remove(&K::key(*k));
                b.remove(&K::key(*k));
            }
        }
        let mut shuffled = want.clone();
        shuffled.shuffle(&mut r);
        let ways: Vec<M<K, V>> = vec![a, b.into(), shuffled.into_iter().collect(), want.clone().into_iter().rev().collect()];
        let mut enc: BTreeSet<Vec<u8>> = BTreeSet::new();
        for w in &ways {
            if !same(w) || w != &ways[0] {
                return Err(("built", format!("built as {w:?}, specified {want:?}")));
            }
            enc.insert(C::ser(w).map_err(|e| ("rejected", format!("not serialized: {e}")))?);
        }
        if enc.len() != 1 {
            return Err(("canonical", format!("equal maps have different serializations: {enc:?}")));
        }
        let b = enc.into_iter().next().unwrap_or_default();
        good(&b, "its serialization")?;
        // within something else, several times
        let around = (7u8, ways[0].clone(), ways[1].clone(), 9u8);
        let s = C::ser(&around).map_err(|e| ("rejected", format!("not serialized within a tuple: {e}")))?;
        match C::de::<(u8, M<K, V>, M<K, V>, u8)>(&s) {
            Ok(t) if t == around => {}
            Ok(t) => return Err(("decoded", format!("in a tuple: decoded as {t:?}, specified {around:?}"))),
            Err(e) => return Err(("rejected", format!("in a tuple: {e}"))),
        }
        // it reads as a sequence of pairs
        match C::de::<Vec<(K, V)>>(&b) {
            Ok(v) if v.len() == want.len() && v.iter().all(|x| want.contains(x)) => {}
            other => return Err(("pairs", format!("reads as {other:?}, specified {want:?}"))),
        }
        b
    } else {
        let mut ents = vec![];
        for (k, v) in &l.entries {
            ents.push(if *k >= 0 {
                Ent::Pair(pair(*k as usize, *v))
            } else if C::NAME == "binary" {
                return Ok(false);
            } else {
                match r.gen_range(0..if C::NAME == "json" { 4 } else { 1 }) {
                    0 => Ent::Num(5),
                    1 => Ent::One((K::key(1),)),
                    2 => Ent::Three((K::key(2), V::val(1), V::val(2))),
                    _ => Ent::Seq(vec![]),
                }
            });
        }
        let b = C::ser(&ents).map_err(|e| ("tool", e))?;
        if l.ok {
            good(&b, "a sequence of entries")?;
        } else if let Ok(m) = C::de::<M<K, V>>(&b) {
            return Err(("accepted", format!("entries {:?} accepted as {m:?}", l.entries)));
        }
        b
    };
    // cut short
    let cuts: Vec<usize> = if bytes.len() <= 120 { (0..bytes.len()).collect() } else { (0..40).map(|_| r.gen_range(0..bytes.len())).collect() };
    for c in cuts {
        *cut += 1;
        if let Ok(m) = C::de::<M<K, V>>(&bytes[..c]) {
            return Err(("cut", format!("{c} of {} bytes accepted as {m:?}", bytes.len())));
        }
    }
    // claims to have more entries than there are
    if C::NAME == "binary" {
        let n = l.pairs.len().max(l.entries.len());
        let head = if n < 128 { 1 } else { 2 };
        if n < 16384 {
            for claim in [u64::MAX, u64::MAX / 2, 1 << 40, n as u64 + 1] {
                let mut b = postcard::to_allocvec(&claim).map_err(|e| ("tool", e.to_string()))?;
                b.extend_from_slice(&bytes[head..]);
                if let Ok(m) = C::de::<M<K, V>>(&b) {
                    // (the missing one cannot be made up, unless it takes no bytes)
                    return Err(("cut", format!("{claim} entries claimed, accepted as {m:?}")));
                }
            }
        }
    }
    Ok(true)
}

pub fn smap(text: &str, seed: u64, threads: usize) -> Result<MSummary, String> {
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("\"{")).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let parts: Vec<Result<MSummary, String>> = std::thread::scope(|s| {
        let workers: Vec<_> = (0..threads).map(|_| s.spawn(|| worker(&lines, &next, seed))).collect();
        workers.into_iter().map(|w| w.join().unwrap_or_else(|_| Err("a worker died".into()))).collect()
    });
    let mut sum = MSummary::default();
    for p in parts {
        let p = p?;
        sum.lines += p.lines;
        sum.cut += p.cut;
        sum.diverged += p.diverged;
        sum.tool_errors.extend(p.tool_errors);
        sum.divergences.extend(p.divergences);
        for (k, v) in p.checks {
            *sum.checks.entry(k).or_default() += v;
        }
    }
    sum.divergences.truncate(40);
    Ok(sum)
}

fn worker(lines: &[&str], next: &std::sync::atomic::AtomicUsize, seed: u64) -> Result<MSummary, String> {
    let mut sum = MSummary::default();
    loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let Some(l) = lines.get(i) else { break };
        let raw: String = serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?;
        let line: MLine = serde_json::from_str(&raw).map_err(|e| format!("{e}: {raw}"))?;
        sum.lines += 1;
        macro_rules! go {
            ($c:ty, $k:ty, $v:ty) => {{
                let name = format!("{} {} {}", <$c>::NAME, stringify!($k), stringify!($v));
                let mut cut = 0;
                let res = guarded(|| run::<$c, $k, $v>(&line, seed * 1_000_000 + i as u64, &mut cut));
                sum.cut += cut;
                let (aspect, detail) = match res {
                    Ok(Ok(done)) => {
                        *sum.checks.entry(name).or_default() += done as usize;
                        ("", String::new())
                    }
                    Ok(Err(("tool", e))) | Err(Err(e)) => {
                        if sum.tool_errors.len() < 5 {
                            sum.tool_errors.push(format!("{name}: {e}"));
                        }
                        ("", String::new())
                    }
                    Ok(Err((a, d))) => (a, format!("{name}: {d:.600}")),
                    Err(Ok(p)) => ("panic", format!("{name}: {p}")),
                };
                if !aspect.is_empty() {
                    sum.diverged += 1;
                    if sum.divergences.len() < 40 {
                        sum.divergences.push(json!({"aspect": aspect, "format": <$c>::NAME, "detail": detail,
                            "line": serde_json::from_str::<Value>(&raw).unwrap_or_default()}));
                    }
                }
            }};
        }
        macro_rules! keys {
            ($c:ty, $v:ty) => {
                go!($c, u8, $v);
                go!($c, u32, $v);
                go!($c, String, $v);
                go!($c, Vec<u8>, $v);
                go!($c, (u8, String), $v);
                go!($c, Rev, $v);
            };
        }
        keys!(J, u8);
        keys!(B, u8);
        keys!(D, u8);
        keys!(J, String);
        keys!(B, String);
        keys!(D, String);
        keys!(J, Vec<u32>);
        keys!(D, Vec<u32>);
        keys!(J, SerializableMap<u8, String>);
        keys!(B, SerializableMap<u8, String>);
        keys!(D, SerializableMap<u8, String>);
        keys!(J, ());
    }
    Ok(sum)
}
