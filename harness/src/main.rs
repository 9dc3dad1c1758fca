mod craft;
mod drive;
mod evidence;
mod exec;
mod ext;
mod model;
mod net;
mod replay;
mod smap;
mod sp;

use std::{process::exit, sync::Arc};

use craft::calibrate;
use replay::*;
use serde_json::json;
use sp::{Bin, Json};

fn tool(e: impl std::fmt::Display) -> ! {
    eprintln!("TOOL ERROR: {e}");
    exit(2)
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let threads: usize = opt("--threads").and_then(|t| t.parse().ok()).unwrap_or(8);
    let files: Vec<&String> = args.iter().skip(1).take_while(|a| !a.starts_with("--")).collect();
    let calibration = || match guarded(calibrate) {
        Ok(Ok(c)) => Arc::new(c),
        Ok(Err(e)) | Err(Err(e)) => tool(e),
        Err(Ok(e)) => {
            println!("{}", json!({"file": "calibration", "fatal": {"aspect": "panic", "detail": e}}));
            exit(0)
        }
    };
    match args.first().map(|s| s.as_str()) {
        Some("evidence") => {
            let calib = calibration();
            for f in files {
                let text = std::fs::read_to_string(f).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let sum = evidence::evidence(&text, &calib, threads).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let mut v = serde_json::to_value(&sum).expect("serializable");
                v["file"] = f.as_str().into();
                println!("{v}");
            }
        }
        Some("drive") => {
            let max = opt("--max").and_then(|m| m.parse::<usize>().ok());
            let seed = opt("--seed").and_then(|m| m.parse().ok()).unwrap_or(1);
            let calib = calibration();
            for f in files {
                let text = std::fs::read_to_string(f).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let mut v = match drive::drive(&text, &calib, threads, max, seed) {
                    Ok(sum) => serde_json::to_value(&sum).expect("serializable"),
                    Err(e) if e.starts_with("HONEST") => json!({"fatal": {"aspect": "honest", "detail": e}}),
                    Err(e) if e.starts_with("LIBPANIC") => json!({"fatal": {"aspect": "panic", "detail": e}}),
                    Err(e) => tool(format!("{f}: {e}")),
                };
                v["file"] = f.as_str().into();
                println!("{v}");
            }
        }
        Some("net") => {
            let runs = opt("--runs").and_then(|m| m.parse().ok()).unwrap_or(10);
            let seed = opt("--seed").and_then(|m| m.parse().ok()).unwrap_or(1);
            let how = opt("--how").unwrap_or_else(|| "sync".into());
            let calib = calibration();
            for f in files {
                let text = std::fs::read_to_string(f).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let mut v = match net::net(&text, &calib, threads, runs, seed, &how) {
                    Ok(sum) => serde_json::to_value(&sum).expect("serializable"),
                    Err(e) if e.starts_with("HONEST") => json!({"fatal": {"aspect": "honest", "detail": e}}),
                    Err(e) if e.starts_with("LIBPANIC") => json!({"fatal": {"aspect": "panic", "detail": e}}),
                    Err(e) => tool(format!("{f}: {e}")),
                };
                v["file"] = f.as_str().into();
                println!("{v}");
            }
        }
        Some("smap") => {
            let seed = opt("--seed").and_then(|m| m.parse().ok()).unwrap_or(1);
            for f in files {
                let text = std::fs::read_to_string(f).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let sum = smap::smap(&text, seed, threads).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let mut v = serde_json::to_value(&sum).expect("serializable");
                v["file"] = f.as_str().into();
                println!("{v}");
            }
        }
        Some("replay") => {
            let formats = opt("--formats").unwrap_or_else(|| "json,binary".into());
            let max = opt("--max").and_then(|m| m.parse::<usize>().ok());
            let seed = opt("--seed").and_then(|m| m.parse().ok()).unwrap_or(1);
            let calib = calibration();
            for f in files {
                let text = std::fs::read_to_string(f).unwrap_or_else(|e| tool(format!("{f}: {e}")));
                let (hdrs, mut lines) = read_lines(&text, threads).unwrap_or_else(|e| tool(e));
                let mut sum = Summary { lines: lines.len(), configurations: hdrs.len(), ..Default::default() };
                if let Some(max) = max {
                    sample(&mut lines, max, seed);
                }
                sum.selected = lines.len();
                let job = Job { hdrs: &hdrs, lines: &lines, calib: &calib };
                let mut fatal = None;
                for (name, on) in [("json", formats.contains("json")), ("binary", formats.contains("binary"))] {
                    if !on {
                        continue;
                    }
                    let r = match name {
                        "json" => summarise::<Json>(&job, threads, &mut sum),
                        _ => summarise::<Bin>(&job, threads, &mut sum),
                    };
                    match r {
                        Ok(()) => {}
                        Err(e) if e.starts_with("HONEST") => fatal = Some(json!({"aspect": "honest", "detail": e})),
                        Err(e) if e.starts_with("LIBPANIC") => fatal = Some(json!({"aspect": "panic", "detail": e})),
                        Err(e) => tool(format!("{f}: {e}")),
                    }
                }
                let mut v = serde_json::to_value(&sum).expect("serializable");
                v["file"] = f.as_str().into();
                v["fatal"] = fatal.into();
                println!("{v}");
            }
        }
        _ => tool("usage: manul-verif replay FILE"),
    }
}

/// Keeps about `max` lines; groups of alternatives stay together.
fn sample(lines: &mut Vec<Line>, max: usize, seed: u64) {
    if lines.len() <= max {
        return;
    }
    let p = max as f64 / lines.len() as f64;
    lines.retain(|l| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, skeleton(l).0).hash(&mut h);
        (h.finish() % 1_000_000) as f64 / 1_000_000.0 < p
    });
}
