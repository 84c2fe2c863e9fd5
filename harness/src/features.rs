//! C21: builds of feature subsets, compared with the build with everything enabled.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::{Arc, Mutex};

pub const FEATURES: [&str; 10] = ["bup", "buzhash", "fastcdc", "gear", "gzip", "mii", "pigz", "ram", "zpaq", "zstd"];

pub fn names(set: u32) -> Vec<&'static str> {
    (0..10).filter(|i| set >> i & 1 == 1).map(|i| FEATURES[i]).collect()
}

pub enum Probe {
    /// output lines by algorithm
    Lines(BTreeMap<String, Vec<String>>),
    NoBuild(String),
    RunFailed(String),
}

fn target(worker: usize) -> PathBuf {
    crate::known::root().join("target").join(format!("feat{}", worker))
}

pub fn probe(worker: usize, set: u32, seed: u64, n: usize) -> Result<Probe, String> {
    let dir = crate::known::root().join("featprobe");
    let o = Command::new("cargo")
        .current_dir(&dir)
        .args(["build", "--offline", "--quiet", "--no-default-features", "--features", &names(set).join(",")])
        .env("CARGO_TARGET_DIR", target(worker))
        .env_remove("RUSTFLAGS")
        .output()
        .map_err(|e| format!("cannot run cargo: {}", e))?;
    if !o.status.success() {
        let mut e = String::from_utf8_lossy(&o.stderr).to_string();
        let mut cut = e.len().min(1500);
        while !e.is_char_boundary(cut) {
            cut -= 1;
        }
        e.truncate(cut);
        return Ok(Probe::NoBuild(e));
    }
    let bin = target(worker).join("debug").join("featprobe");
    let o = Command::new(bin).arg(seed.to_string()).arg(n.to_string()).output().map_err(|e| format!("cannot run the probe: {}", e))?;
    if !o.status.success() {
        return Ok(Probe::RunFailed(String::from_utf8_lossy(&o.stderr).chars().take(500).collect()));
    }
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let alg = l.split(' ').next().unwrap_or("").to_string();
        m.entry(alg).or_default().push(l.to_string());
    }
    Ok(Probe::Lines(m))
}

/// Does the subset behave like the build with everything? `Ok(None)`: yes.
pub fn compare(worker: usize, set: u32, full: &BTreeMap<String, Vec<String>>, seed: u64, n: usize) -> Result<Option<String>, String> {
    Ok(match probe(worker, set, seed, n)? {
        Probe::NoBuild(e) => Some(format!("does not build: {}", e)),
        Probe::RunFailed(e) => Some(format!("the probe fails: {}", e)),
        Probe::Lines(m) => {
            let want: Vec<&str> = names(set);
            let mut bad = None;
            for a in &want {
                let (x, y) = (m.get(*a), full.get(*a));
                if x.is_none() || x != y {
                    let d = x.zip(y).and_then(|(x, y)| x.iter().zip(y).find(|(p, q)| p != q));
                    bad = Some(format!("{} cuts differently than with all features: {:?}", a, d).chars().take(1200).collect());
                    break;
                }
            }
            if bad.is_none() && m.len() != want.len() {
                bad = Some(format!("algorithms {:?} for features {:?}", m.keys(), want));
            }
            bad
        }
    })
}

/// Subsets to build: none, every single one, all but one, and enough others that any five features
/// occur with every one of their 32 settings.
pub fn subsets(thorough: bool, seed: u64) -> Vec<u32> {
    if thorough {
        return (0..1024).collect();
    }
    let mut v: Vec<u32> = vec![0];
    v.extend((0..10).map(|i| 1 << i));
    v.extend((0..10).map(|i| 0x3ff ^ (1 << i)));
    let fives: Vec<u32> = (0..1024u32).filter(|x| x.count_ones() == 5).collect();
    let mut open: std::collections::HashSet<(u32, u32)> = std::collections::HashSet::new();
    for f in &fives {
        for s in 0..1024u32 {
            open.insert((*f, s & f));
        }
    }
    for s in &v {
        fives.iter().for_each(|f| {
            open.remove(&(*f, s & f));
        });
    }
    let mut r = Rng::new(seed ^ 0xfea7);
    while !open.is_empty() {
        let off = (r.next() & 0x3ff) as u32;
        let gain = |s: u32| fives.iter().filter(|f| open.contains(&(**f, s & **f))).count();
        let best = (0..1024u32).map(|s| s ^ off).max_by_key(|s| gain(*s)).unwrap();
        fives.iter().for_each(|f| {
            open.remove(&(*f, best & f));
        });
        v.push(best);
    }
    v
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(u32, String)>,
    pub lines: u64,
}

pub fn run(thorough: bool, seed: u64) -> Result<Outcome, String> {
    let n = if thorough { 400 } else { 200 };
    let full = match probe(0, 0x3ff, seed, n)? {
        Probe::Lines(m) => m,
        Probe::NoBuild(e) => return Err(format!("the build with all features fails: {}", e)),
        Probe::RunFailed(e) => return Err(format!("the probe fails with all features: {}", e)),
    };
    if full.len() != 10 {
        return Err(format!("the probe reports {:?}", full.keys()));
    }
    let sets = subsets(thorough, seed);
    let next = Arc::new(Mutex::new(0usize));
    let res: Arc<Mutex<Vec<(u32, Option<String>)>>> = Arc::new(Mutex::new(vec![]));
    let err = Arc::new(Mutex::new(None));
    let full = Arc::new(full);
    let lines: u64 = full.values().map(|v| v.len() as u64).sum();
    let hs: Vec<_> = (0..8)
        .map(|w| {
            let (next, res, err, full, sets) = (next.clone(), res.clone(), err.clone(), full.clone(), sets.clone());
            std::thread::spawn(move || loop {
                let i = {
                    let mut g = next.lock().unwrap();
                    let i = *g;
                    *g += 1;
                    i
                };
                if i >= sets.len() || err.lock().unwrap().is_some() {
                    return;
                }
                match compare(w, sets[i], &full, seed, n) {
                    Ok(o) => res.lock().unwrap().push((sets[i], o)),
                    Err(e) => *err.lock().unwrap() = Some(e),
                }
            })
        })
        .collect();
    for h in hs {
        h.join().map_err(|_| "worker failed".to_string())?;
    }
    if let Some(e) = err.lock().unwrap().take() {
        return Err(e);
    }
    let res = res.lock().unwrap();
    let mut bad: Vec<(u32, String)> = res.iter().filter_map(|(s, o)| o.clone().map(|m| (*s, m))).collect();
    // smallest failing subset
    bad.sort_by_key(|(s, _)| (s.count_ones(), *s));
    Ok(Outcome {
        evaluations: res.len() as u64,
        distinct: res.iter().filter(|(s, _)| *s != 0 && *s != 0x3ff).count() as u64,
        samples: res.iter().take(5).map(|(s, _)| serde_json::json!({"features": names(*s)})).collect(),
        failure: bad.into_iter().next(),
        lines,
    })
}
