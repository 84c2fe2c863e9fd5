//! Calls that do not return and calls that end the process.
//!
//! The case being evaluated is kept in a file, so that the parent can name it when the process dies
//! from a signal, and a second thread watches the time spent on it.
use crate::run::{Failure, ShardOut};
use crate::strat::Case;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

struct Cur {
    file: Option<File>,
    case: Option<Case>,
    cpu: f64,
}
static CUR: Mutex<Option<Cur>> = Mutex::new(None);
static SEQ: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// generated cases get less time than jobs
static GENERATED: AtomicBool = AtomicBool::new(false);
static MAX_MS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
/// processor time of the whole process, seconds
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

/// Most processor time one case took since the last call, milliseconds.
pub fn max_ms() -> u64 {
    MAX_MS.swap(0, SeqCst)
}

pub fn generated() {
    GENERATED.store(true, SeqCst);
}

pub fn begin(case: &Case) {
    if !ON.load(SeqCst) {
        return;
    }
    let mut g = CUR.lock().unwrap();
    let c = g.as_mut().unwrap();
    if let Some(f) = &mut c.file {
        let b = serde_json::to_vec(case).unwrap();
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.write_all(&b);
        let _ = f.set_len(b.len() as u64);
    }
    c.case = Some(case.clone());
    c.cpu = cpu();
    SEQ.fetch_add(1, SeqCst);
}

pub fn end() {
    if !ON.load(SeqCst) {
        return;
    }
    let mut g = CUR.lock().unwrap();
    let c = g.as_mut().unwrap();
    if c.case.take().is_some() {
        MAX_MS.fetch_max(((cpu() - c.cpu) * 1e3) as u64, SeqCst);
    }
    if let Some(f) = &mut c.file {
        let _ = f.set_len(0);
    }
}

/// Start to watch. `limit`: processor seconds a case may take; with none used at all (a thread that
/// waits for something that never comes), twice that
/// on the clock.
/// `report` gets the case and a text and ends the process.
pub fn start(file: Option<&str>, limit: f64, report: impl Fn(Case, String) + Send + 'static) {
    *CUR.lock().unwrap() = Some(Cur { file: file.map(|f| File::create(f).unwrap()), case: None, cpu: 0.0 });
    ON.store(true, SeqCst);
    std::thread::spawn(move || {
        // ticks of this thread instead of the clock: they stop when the machine does
        let (mut seq, mut ticks) = (0, 0u32);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = CUR.lock().unwrap();
            let c = g.as_ref().unwrap();
            if SEQ.load(SeqCst) != seq {
                seq = SEQ.load(SeqCst);
                ticks = 0;
            }
            ticks += 1;
            if let Some(case) = &c.case {
                let limit = if GENERATED.load(SeqCst) { limit / 3.0 } else { limit };
                let (p, w) = (cpu() - c.cpu, ticks as f64 * 0.5);
                if p > limit || (w > limit * 2.0 && p < 1.0 + w / 50.0) {
                    report(case.clone(), format!("a call has not returned after {:.0} s of processor time, at least {:.0} s on the clock", p, w));
                    std::process::exit(3);
                }
            }
        }
    });
}

/// The case a process that is gone was busy with.
pub fn last(out: &std::path::Path) -> Option<Case> {
    serde_json::from_slice(&std::fs::read(format!("{}.cur", out.display())).ok()?).ok()
}

/// A job, quick tier: they take up to 45 s; a generated case less than 2 s.
pub fn limit(thorough: bool) -> f64 {
    std::env::var("HR_CASE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600.0 } else { 240.0 })
}

pub fn stuck_out(f: Failure) -> ShardOut {
    ShardOut { failure: Some(f), ..ShardOut::default() }
}
