mod alloc;
mod cfg;
mod copies;
mod data;
mod drive;
mod features;
mod giant;
mod known;
mod model;
mod props;
mod ranges;
mod rng;
mod run;
mod solve;
mod strat;
mod tables;
mod tail;
mod user;
mod watch;

use run::*;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

const SHARDS: u32 = 8;
/// Further shards, of generated cases only, built without debug assertions and overflow checks: what
/// a user's release build runs.
const PLAIN: u32 = 2;

fn die(msg: &str) -> ! {
    eprintln!("hrcheck: error: {}", msg);
    exit(3)
}

/// This program, built with or without debug assertions and overflow checks.
fn exe(plain: bool) -> std::path::PathBuf {
    let mut p = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
    let name = p.file_name().unwrap().to_owned();
    p.pop();
    p.pop();
    p.join(if plain { "plain" } else { "release" }).join(name)
}

/// Ended by a signal that the program's own doing raises (and not by SIGKILL, say).
fn died(s: &ExitStatus) -> bool {
    matches!(s.signal(), Some(4 | 5 | 6 | 7 | 8 | 11))
}

/// A case the process died of: does it again, on its own or with the shard's earlier cases? Made smaller
/// when it does so on its own.
fn again(mut f: Failure, tmp: &std::path::Path) -> Result<Failure, String> {
    let p = tmp.join("again.json");
    let run = |f: &Failure, only: bool| -> Result<ExitStatus, String> {
        std::fs::write(&p, serde_json::to_string(f).unwrap()).map_err(|e| e.to_string())?;
        let mut c = Command::new(exe(f.plain));
        c.arg("replay1").arg(&p).stdout(Stdio::null()).stderr(Stdio::null());
        if only {
            c.env("HR_ONLY", "1");
        }
        c.status().map_err(|e| e.to_string())
    };
    if died(&run(&f, true)?) {
        let g = f.clone();
        let (case, message) = minimise_by(f.case.clone(), f.message.clone(), &|c| {
            let g = Failure { case: c.clone(), ..g.clone() };
            run(&g, true).ok().filter(|s| died(s)).map(|s| format!("the process died: {}", s))
        });
        f.data_hex = data_hex(&case);
        f.case = case;
        f.message = message;
        return Ok(f);
    }
    let s = run(&f, false)?;
    if died(&s) || s.code() == Some(1) {
        Ok(f)
    } else {
        Err(s.to_string())
    }
}

fn find(id: &str) -> Check {
    props::checks().into_iter().find(|c| c.id == id).unwrap_or_else(|| die(&format!("no check {}", id)))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => parent(&a[2]),
        Some("shard") => child(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("replay1") => roomy(move || replay1(&a[2])),
        // time the jobs beyond 4 GiB
        Some("tail") => {
            for c in tail::jobs(&cfg::ALGS[..], &[0, 1, 2, 3, 4, 5, 6, 7], false, env_seed()) {
                if a.len() > 2 && c.cfg.alg().name() != a[2] {
                    continue;
                }
                let t = Instant::now();
                let mut l = Log::default();
                let r = tail::run(&c, &mut l);
                println!("{:?} {:?} {:.1} s {:?} {} {:?}", c.cfg, c.knobs, t.elapsed().as_secs_f64(), r, l.nontrivial, l.labels);
            }
        }
        Some("list") => props::checks().iter().for_each(|c| println!("{}", c.id)),
        _ => die("usage: hrcheck run ID | replay FILE"),
    }
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn child(a: &[String]) {
    install_hook();
    let c = find(&a[0]);
    let (th, seed, i, n) = (a[1] == "thorough", a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let out = a[5].clone();
    {
        let (id, tier, out) = (a[0].clone(), a[1].clone(), out.clone());
        watch::start(Some(&format!("{}.cur", out)), watch::limit(th), move |case, message| {
            let f = Failure { property: id.clone(), message, case, data_hex: vec![], seed, shard: i, shards: n, tier: tier.clone(), plain: !cfg!(debug_assertions) };
            std::fs::write(&out, serde_json::to_vec(&watch::stuck_out(f)).unwrap()).unwrap();
            exit(0);
        });
    }
    roomy(move || {
        let (o, hashes) = shard(&c, th, seed, i, n, false);
        std::fs::write(&out, serde_json::to_vec(&o).unwrap()).unwrap();
        let b: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(format!("{}.h", out), b).unwrap();
    })
}

/// On a thread with a roomy stack: deep recursion is not expected, and the harness itself must not run out.
fn roomy(f: impl FnOnce() + Send + 'static) {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap();
    if h.join().is_err() {
        exit(3);
    }
}

fn evidence(id: &str, th: bool, seed: u64, cov: serde_json::Value, wall: f64, violations: u64, assumptions: Vec<String>) {
    let dir = known::root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let e = serde_json::json!({
        "property": id,
        "tier": if th { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    if std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&e).unwrap() + "\n").is_err() {
        die("cannot write the evidence file");
    }
}

fn replay_path(id: &str) -> std::path::PathBuf {
    let dir = known::root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{}.json", id))
}

fn assumptions(id: &str) -> Vec<String> {
    let mut v = vec![
        "Valid configurations: bup, gzip and BuzHash windows of at least 1; gzip modulus of at least 1; gear 1..=31 bits; pigz 0..=31 bits; zpaq size power 10..=32, average 1..=32, a range that contains a size of at least 1; zstd section size of at least 1 MiB; FastCDC 1 <= minimum <= maximum.".to_string(),
        "A strict slice iteration is not polled again after it returned None.".to_string(),
    ];
    match id {
        "C16" => v = vec!["Statistical: six standard errors plus a few percent; sizes are compared with the expectation for independent uniform bytes.".into()],
        "C21" => v = vec!["Feature subsets are built with the installed stable compiler, in the dev profile.".into()],
        "C22" => v = vec!["Items are comparable with the bounds (no NaN).".into()],
        _ => {}
    }
    v
}

fn parent(id: &str) {
    let t0 = Instant::now();
    let (th, seed) = (thorough(), env_seed());
    let rp = replay_path(id);
    let _ = std::fs::remove_file(&rp);
    if id == "C21" {
        return parent_features(th, seed, t0);
    }
    let check = find(id);
    let tmp = known::root().join("target").join(format!("shards-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap_or_else(|e| die(&e.to_string()));
    let tier = if th { "thorough" } else { "quick" };
    let mut kids = vec![];
    for i in 0..SHARDS + PLAIN {
        let out = tmp.join(format!("{}.json", i));
        let k = Command::new(exe(i >= SHARDS))
            .args(["shard", id, tier, &seed.to_string(), &i.to_string(), &SHARDS.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&e.to_string()));
        kids.push((k, out, None));
    }
    // `watch` reports a call that does not return; running out of time otherwise is no verdict
    let limit = Duration::from_secs(std::env::var("HR_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if th { 6 * 3600 } else { 780 }));
    let mut open = kids.len();
    while open > 0 {
        open = 0;
        for (k, _, st) in kids.iter_mut() {
            if st.is_none() {
                match k.try_wait() {
                    Ok(Some(s)) => *st = Some(s),
                    _ => open += 1,
                }
            }
        }
        if open > 0 && t0.elapsed() > limit {
            for (k, _, _) in kids.iter_mut() {
                let _ = k.kill();
                let _ = k.wait();
            }
            let _ = std::fs::remove_dir_all(&tmp);
            die("time limit reached: no verdict");
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut tot = ShardOut::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut error = None;
    for (i, (_, out, st)) in kids.iter().enumerate() {
        let o: Option<ShardOut> = std::fs::read(out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let o = match o {
            Some(o) => o,
            None => {
                let st = st.unwrap();
                match (died(&st), watch::last(out)) {
                    (true, Some(case)) if tot.failure.is_none() => {
                        let message = format!("the process died: {}", st);
                        let f = Failure { property: id.into(), message, case, data_hex: vec![], seed, shard: i as u32, shards: SHARDS, tier: tier.into(), plain: i as u32 >= SHARDS };
                        match again(f, &tmp) {
                            Ok(f) => tot.failure = Some(f),
                            Err(e) => error = Some(format!("shard {} ended with {:?}, again: {}", i, st, e)),
                        }
                    }
                    _ => error = Some(format!("shard {} ended with {:?} and no result", i, st)),
                }
                continue;
            }
        };
        if let Ok(b) = std::fs::read(format!("{}.h", out.display())) {
            hashes.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        tot.evaluations += o.evaluations;
        for (k, v) in o.labels {
            *tot.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *tot.known.entry(k).or_default() += v;
        }
        tot.job_ms = tot.job_ms.max(o.job_ms);
        tot.case_ms = tot.case_ms.max(o.case_ms);
        if i as u32 >= SHARDS {
            *tot.labels.entry("build:plain-release".into()).or_default() += o.evaluations;
        }
        tot.samples.extend(o.samples.into_iter().take(1));
        if let Some(e) = o.harness_error {
            error = Some(e);
        }
        if tot.failure.is_none() {
            tot.failure = o.failure;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let labels: BTreeMap<_, _> = tot.labels.iter().collect();
    let cov = serde_json::json!({
        "evaluations": tot.evaluations,
        "distinct_nontrivial": hashes.len(),
        "rule": check.rule,
        "samples": tot.samples.iter().take(6).collect::<Vec<_>>(),
        "distribution": labels,
        "known_finding_hits": tot.known,
        "slowest_job_cpu_ms": tot.job_ms,
        "slowest_generated_case_cpu_ms": tot.case_ms,
    });
    evidence(id, th, seed, cov, t0.elapsed().as_secs_f64(), tot.failure.is_some() as u64, assumptions(id));
    for (sig, p, text) in known::list() {
        if p == id && tot.known.contains_key(&sig) {
            println!("KNOWN-FINDING: property={} {}", p, text);
        }
    }
    if let Some(f) = tot.failure {
        std::fs::write(&rp, serde_json::to_string_pretty(&f).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
        println!("{}: {}", id, f.message);
        println!("configuration {:?}", f.case.cfg);
        for (i, d) in f.data_hex.iter().enumerate() {
            if d.len() < 400 {
                println!("stream {}: {}", i, d);
            }
        }
        println!("VIOLATION property={} replay={}", id, rp.display());
        exit(1);
    }
    if let Some(e) = error {
        die(&e);
    }
    println!(
        "{} {}: held on {} cases ({} distinct non-trivial), seed {}, {:.1} s",
        id,
        tier,
        tot.evaluations,
        hashes.len(),
        seed,
        t0.elapsed().as_secs_f64()
    );
}

fn parent_features(th: bool, seed: u64, t0: Instant) {
    let o = features::run(th, seed).unwrap_or_else(|e| die(&e));
    let cov = serde_json::json!({
        "evaluations": o.evaluations,
        "distinct_nontrivial": o.distinct,
        "rule": "A case is a subset of the ten features: none, each alone, all but one, and further ones so that any five features occur in all 32 settings (thorough: all 1024). The crate is built with it and the cuts of every enabled algorithm on generated streams are compared with the build that has all features. Non-trivial: neither empty nor full.",
        "samples": o.samples,
        "compared_lines_per_full_build": o.lines,
        "exhaustive": th,
    });
    evidence("C21", th, seed, cov, t0.elapsed().as_secs_f64(), o.failure.is_some() as u64, assumptions("C21"));
    if let Some((set, m)) = o.failure {
        let rp = replay_path("C21");
        let j = serde_json::json!({"property": "C21", "features": features::names(set), "set": set, "seed": seed, "message": m});
        std::fs::write(&rp, serde_json::to_string_pretty(&j).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
        println!("C21: features {:?}: {}", features::names(set), m);
        println!("VIOLATION property=C21 replay={}", rp.display());
        exit(1);
    }
    println!("C21: held on {} feature subsets, {:.1} s", o.evaluations, t0.elapsed().as_secs_f64());
}

fn replay(path: &str) {
    let v: serde_json::Value =
        serde_json::from_slice(&std::fs::read(path).unwrap_or_else(|e| die(&e.to_string()))).unwrap_or_else(|e| die(&e.to_string()));
    if v["property"] == "C21" {
        let (set, seed) = (v["set"].as_u64().unwrap() as u32, v["seed"].as_u64().unwrap());
        let full = match features::probe(0, 0x3ff, seed, 200) {
            Ok(features::Probe::Lines(m)) => m,
            _ => die("the build with all features fails"),
        };
        match features::compare(0, set, &full, seed, 200) {
            Ok(None) => println!("C21: holds"),
            Ok(Some(m)) => {
                println!("C21: features {:?}: {}", features::names(set), m);
                println!("VIOLATION property=C21 replay={}", path);
                exit(1);
            }
            Err(e) => die(&e),
        }
        return;
    }
    let f: Failure = serde_json::from_value(v).unwrap_or_else(|e| die(&e.to_string()));
    // in a process of its own: the case may end it
    let s = Command::new(exe(f.plain)).arg("replay1").arg(path).status().unwrap_or_else(|e| die(&e.to_string()));
    if died(&s) {
        println!("{}: the process died: {}", f.property, s);
        println!("VIOLATION property={} replay={}", f.property, path);
        exit(1);
    }
    exit(s.code().unwrap_or(3))
}

fn replay1(path: &str) {
    let b = std::fs::read(path).unwrap_or_else(|e| die(&e.to_string()));
    let f: Failure = serde_json::from_slice(&b).unwrap_or_else(|e| die(&e.to_string()));
    install_hook();
    let c = find(&f.property);
    let (id, p) = (f.property.clone(), path.to_string());
    watch::start(None, watch::limit(f.tier == "thorough"), move |_, m| {
        println!("{}: {}", id, m);
        println!("VIOLATION property={} replay={}", id, p);
        exit(1);
    });
    match eval(&c, &f.case, &mut Log::default()) {
        Ran::Harness(m) => die(&m),
        Ran::Fail(m) => {
            println!("{}: {}", f.property, m);
            println!("VIOLATION property={} replay={}", f.property, path);
            exit(1);
        }
        Ran::Ok => {}
    }
    if std::env::var_os("HR_ONLY").is_some() {
        return;
    }
    // not reproduced on its own: it may need the process's earlier cases
    let (o, _) = shard(&c, f.tier == "thorough", f.seed, f.shard, f.shards, false);
    match o.failure {
        Some(g) => {
            println!("{} (whole shard {}/{}): {}", f.property, f.shard, f.shards, g.message);
            println!("VIOLATION property={} replay={}", f.property, path);
            exit(1);
        }
        None => println!("{}: holds", f.property),
    }
}
