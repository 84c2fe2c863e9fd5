//! Streams of more than 4 GiB: a long cut-free run of one byte in the middle of a modelled stream.
//!
//! Once the run has filled the look-back window, every algorithm (zpaq apart) is in a state that
//! more of the same byte does not change, so the cuts after it are the model's for a short run,
//! moved by the number of bytes put in.
use crate::cfg::*;
use crate::data::*;
use crate::drive::*;
use crate::model::{self, Mode};
use crate::rng::Rng;
use crate::run::Log;
use crate::strat::Case;

type R<T> = Result<T, String>;

pub const PUSH_MIB: u32 = 0;
pub const SEARCH_MIB: u32 = 1;
pub const PUSH_WHOLE: u32 = 2;
pub const SEARCH_WHOLE: u32 = 3;
pub const SLICES: u32 = 4;
pub const STRICT: u32 = 5;
pub const PUSH_REST: u32 = 6;
pub const SEARCH_REST: u32 = 7;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn close(fd: i32) -> i32;
}

/// A long read-only buffer that takes little memory: one block mapped again and again.
pub struct Big {
    p: *mut u8,
    cap: usize,
    len: usize,
}
const BLOCK: usize = 16 << 20;
impl Big {
    /// `None`: the system does not allow it
    pub fn new(data: &[u8], at: usize, filler: u8, more: usize) -> Option<Big> {
        let len = data.len() + more;
        let cap = (len + BLOCK) / BLOCK * BLOCK;
        unsafe {
            let bad = usize::MAX as *mut u8;
            let fd = memfd_create(b"hrcheck\0".as_ptr() as *const i8, 0);
            if fd < 0 {
                return None;
            }
            let p = mmap(std::ptr::null_mut(), cap, 0, 0x4022, -1, 0);
            if p == bad {
                close(fd);
                return None;
            }
            let mut b = Big { p, cap, len };
            let ok = ftruncate(fd, BLOCK as i64) == 0 && {
                let w = mmap(std::ptr::null_mut(), BLOCK, 3, 1, fd, 0);
                w != bad && {
                    std::ptr::write_bytes(w, filler, BLOCK);
                    munmap(w, BLOCK) == 0
                }
            } && (0..cap / BLOCK).all(|i| mmap(p.add(i * BLOCK), BLOCK, 3, 0x12, fd, 0) != bad);
            close(fd);
            if !ok {
                return None;
            }
            let s = std::slice::from_raw_parts_mut(b.p, b.len);
            s[..at].copy_from_slice(&data[..at]);
            let n = data.len() - at;
            b.len = len;
            s[len - n..].copy_from_slice(&data[at..]);
            Some(b)
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.len) }
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        unsafe {
            munmap(self.p, self.cap);
        }
    }
}

pub struct Long {
    pub data: Vec<u8>,
    /// where the filler goes
    pub at: usize,
    pub filler: u8,
    pub more: u64,
    pub search: Vec<usize>,
    pub incr: Vec<usize>,
}
impl Long {
    fn total(&self) -> u64 {
        self.data.len() as u64 + self.more
    }
    fn moved(&self, v: &[usize]) -> Vec<usize> {
        v.iter().map(|c| if *c > self.at { *c + self.more as usize } else { *c }).collect()
    }
    fn fill(&self, p: u64, b: &mut [u8]) {
        let (a, z) = (self.at as u64, self.at as u64 + self.more);
        if p >= a && p + b.len() as u64 <= z {
            b.fill(self.filler);
            return;
        }
        for (i, x) in b.iter_mut().enumerate() {
            let q = p + i as u64;
            *x = if q < a {
                self.data[q as usize]
            } else if q < z {
                self.filler
            } else {
                self.data[(q - self.more) as usize]
            };
        }
    }
}

/// The modelled stream: stream 0, the run, stream 1.
pub fn build(c: &Case) -> R<Long> {
    let w = c.cfg.window().max(64);
    let mut pre = expand(&c.streams[0], &c.cfg, 100_000, 1);
    // (RAM) something the run does not exceed
    pre.extend_from_slice(&[255, 254]);
    let run = 2 * w + 300;
    let first = c.knobs[1] as u8;
    for j in 0..256u32 {
        let filler = if c.cfg.alg() == Alg::Ram { j as u8 } else { first.wrapping_add(j as u8) };
        let mut v = pre.clone();
        v.resize(pre.len() + run, filler);
        if model::cuts(&c.cfg, &v, Mode::Search).iter().any(|x| *x >= pre.len()) {
            continue;
        }
        let end = v.len();
        let mut ops = vec![Op::Lit(v)];
        ops.extend(c.streams[1].iter().cloned());
        let data = expand(&ops, &c.cfg, end + 120_000, 1);
        let search = model::cuts(&c.cfg, &data, Mode::Search);
        let incr = model::cuts(&c.cfg, &data, Mode::Incr);
        let at = pre.len() + run / 2;
        if search.iter().chain(&incr).any(|x| *x > pre.len() && *x < end) {
            continue;
        }
        let more = (1u64 << 32) + c.knobs[2] as u64;
        return Ok(Long { data, at, filler, more, search, incr });
    }
    Err(format!("harness: no byte for a run without a cut, {:?}", c.cfg))
}

pub fn run(c: &Case, log: &mut Log) -> R<()> {
    LIMIT.with(|l| l.set(200_000));
    let r = run_limited(c, log);
    LIMIT.with(|l| l.set(usize::MAX));
    r
}

fn run_limited(c: &Case, log: &mut Log) -> R<()> {
    let l = build(c).unwrap_or_else(|e| panic!("{}", e));
    let d = plain(&c.cfg);
    let (ws, wi) = (l.moved(&l.search), l.moved(&l.incr));
    let mode = c.knobs[0];
    log.label("stream:>4GiB");
    log.nontrivial = l.search.last().map_or(false, |x| *x > l.at);
    let what = format!("{:?}, {} bytes with {} times {} from {}", c.cfg, l.total(), l.more, l.filler, l.at);
    let ctx = |m: &str| format!("{}; {} vs the definition", what, m);
    match mode {
        PUSH_MIB | SEARCH_MIB => {
            let s = mode == SEARCH_MIB;
            let got = crate::giant::stream_of(&*d, c.cfg.window(), s, l.total(), &|p, b| l.fill(p, b)).map_err(|e| format!("{}: {}", what, e))?;
            let got: Vec<usize> = got.into_iter().map(|x| x as usize).collect();
            diff(&ctx(if s { "find_chunk_edge, MiB by MiB," } else { "push, MiB by MiB," }), &got, if s { &ws } else { &wi })
        }
        m => {
            let b = match Big::new(&l.data, l.at, l.filler, l.more as usize) {
                Some(b) => b,
                None => {
                    log.label("skipped:no-mapping");
                    log.nontrivial = false;
                    return Ok(());
                }
            };
            let v = b.get();
            let n = v.len();
            let mut r = Rng::new(c.knobs[1] as u64);
            let part = 1 + r.below(l.at as u64) as usize;
            let e = |e: String| format!("{}: {}", what, e);
            match m {
                PUSH_WHOLE => diff(&ctx("push, at once,"), &incr_cuts(&*d, v, &[n], 0).map_err(e)?, &wi),
                PUSH_REST => diff(&ctx("push, in three pieces,"), &incr_cuts(&*d, v, &[part, n - part, n], 0).map_err(e)?, &wi),
                SEARCH_WHOLE => diff(&ctx("find_chunk_edge, at once,"), &fce_cuts(&*d, v, &[n], 4).map_err(e)?, &ws),
                SEARCH_REST => diff(&ctx("find_chunk_edge, grown twice,"), &fce_cuts(&*d, v, &[part, n - part, n], 0).map_err(e)?, &ws),
                m => {
                    let items: Vec<&[u8]> = if m == SLICES { d.slices(v, wi.len() + 3).0 } else { d.strict(v, wi.len() + 3, false).0 };
                    let name = if m == SLICES { "iter_slices" } else { "iter_slices_strict" };
                    let mut p = 0;
                    let mut got = vec![];
                    for s in &items {
                        if s.as_ptr() as usize != v.as_ptr() as usize + p || s.is_empty() {
                            return Err(format!("{}: {}: item {} does not follow the one before", what, name, got.len()));
                        }
                        p += s.len();
                        got.push(p);
                    }
                    if m == SLICES {
                        if p != n {
                            return Err(format!("{}: {}: covers {} of {} bytes", what, name, p, n));
                        }
                        if wi.last() != Some(&n) {
                            got.pop();
                        }
                    }
                    diff(&ctx(name), &got, &wi)
                }
            }
        }
    }
}

/// The chunker itself, without the counting of hash calls.
fn plain(c: &Cfg) -> Box<dyn Dyn> {
    use hash_roll::buzhash::*;
    match c {
        Cfg::Buz { k, mask, table, kind, salt, max } => match kind {
            HKind::Salted => make_of(BuzHash::new(*k, *mask, BuzHashTableByteSaltHash::from((*salt, impl_buz(table))), *max)),
            HKind::Owned => make_of(BuzHash::new(*k, *mask, BuzHashTableBufHash::from(Box::new(*impl_buz(table))), *max)),
            HKind::Borrowed => make_of(BuzHash::new(*k, *mask, BuzHashTableHash::from(impl_buz(table)), *max)),
        },
        c => make(c),
    }
}

/// A configuration of the algorithm whose chunks can be long.
fn cfg_for(a: Alg, i: u64) -> Cfg {
    match a {
        Alg::Bup => if i & 1 == 0 { Cfg::BupDefault } else { Cfg::Bup { window: 100 + (i as usize >> 1) % 50 } },
        Alg::Buz => Cfg::Buz {
            k: 20 + (i as usize) % 60,
            mask: 0x3ff << (i % 20),
            table: if i & 1 == 0 { Table::Published } else { Table::Random(1) },
            kind: [HKind::Borrowed, HKind::Owned, HKind::Salted][i as usize % 3],
            salt: i as u8,
            max: u64::MAX,
        },
        Alg::Fast => Cfg::Fast { table: Table::Random((i % 8) as u8), min: 20 + i % 30, normal: 60, max: 1 << 40 },
        Alg::Gear => Cfg::Gear { log2: 6 + (i as usize) % 8 },
        Alg::Gzip => Cfg::Gzip { window: 30 + (i as usize) % 100, modulus: 301 + i % 1000 },
        Alg::Mii => Cfg::Mii { w: 3 + i % 3 },
        Alg::Pigz => Cfg::Pigz { bits: 6 + (i % 8) as u8 },
        Alg::Ram => Cfg::Ram { w: 10 + i % 100 },
        Alg::Zstd => Cfg::ZstdDefault,
        Alg::Zpaq => unreachable!(),
    }
}

/// One job per algorithm and mode.
pub fn jobs(algs: &[Alg], modes: &[u32], thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = vec![];
    for r in 0..if thorough { 3 } else { 1 } {
        for (i, a) in algs.iter().filter(|a| **a != Alg::Zpaq).enumerate() {
            for (j, m) in modes.iter().enumerate() {
                let s = seed.wrapping_mul(7919).wrapping_add(r * 131 + i as u64 * 17 + j as u64 * 5);
                let mut x = Rng::new(s);
                v.push(Case {
                    cfg: cfg_for(*a, x.next() >> 20),
                    mult: crate::giant::TAIL,
                    streams: vec![
                        vec![Op::Steer { seed: s, gaps: vec![5, 40] }, Op::NoCut { seed: s + 1, len: (x.next() % 300) as u32, scaled: false }],
                        vec![Op::Rand { seed: s + 2, len: (x.next() % 200) as u32, scaled: false }, Op::Steer { seed: s + 3, gaps: vec![0, 30, 70, 150] }, Op::Rand { seed: s + 4, len: 3000, scaled: false }],
                    ],
                    plans: vec![],
                    knobs: vec![*m, (x.next() % 256) as u32, (x.next() % 2_000_000) as u32],
                });
            }
        }
    }
    v
}

/// One job per algorithm, the mode changing with the algorithm and the seed.
pub fn mixed(algs: &[Alg], modes: &[u32], thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = vec![];
    for r in 0..if thorough { modes.len() as u64 } else { 1 } {
        for (i, a) in algs.iter().filter(|a| **a != Alg::Zpaq).enumerate() {
            let m = modes[(seed.wrapping_add(r) as usize + i) % modes.len()];
            v.extend(jobs(&[*a], &[m], false, seed.wrapping_add(1000 * r)));
        }
    }
    v
}
