//! Byte streams are described by recipes (generated, shrinkable) and expanded deterministically.
use crate::cfg::Cfg;
use crate::model::{self, Mode, Model, ZSTD_PRIME};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Lit(Vec<u8>),
    Rand { seed: u64, len: u32, scaled: bool },
    /// two-letter alphabet
    Small { seed: u64, len: u32, a: u8, b: u8 },
    Rep { b: u8, len: u32, scaled: bool },
    Period { pat: Vec<u8>, len: u32 },
    Ramp { start: u8, step: u8, len: u32 },
    /// cuts at roughly the given distances (from the model)
    Steer { seed: u64, gaps: Vec<u16> },
    /// zstd: a cut and another one `d` bytes later (elsewhere: like Steer)
    Twin { seed: u64, d: u8 },
    /// bytes chosen so that no cut is found by content
    NoCut { seed: u64, len: u32, scaled: bool },
    /// NoCut up to the configured minimum or maximum size plus `delta`
    ToLimit { seed: u64, max: bool, delta: i8 },
    /// zstd: the hash matches when the stream has `n` (at most 32) bytes, which must not cut yet
    /// (elsewhere: like Steer)
    Early { seed: u64, n: u8 },
    /// repeat earlier bytes of the stream
    Copy { back: u32, len: u32 },
}
pub type Recipe = Vec<Op>;

thread_local! {
    static ZT: RefCell<HashMap<u32, HashMap<u64, (u8, u8)>>> = RefCell::new(HashMap::new());
}

/// zstd: bytes b0..b3 such that the hash of (28 given bytes, b0..b3) has the low `bits` bits set.
fn zstd_solve(tail28: &[u8], bits: u32, r: &mut Rng, mut accept: impl FnMut([u8; 4]) -> bool, tries: u32) -> Option<[u8; 4]> {
    let mask = (1u64 << bits) - 1;
    let p = ZSTD_PRIME;
    let mut h = 0u64;
    for b in tail28 {
        h = h.wrapping_mul(p).wrapping_add(*b as u64 + 10);
    }
    let p2 = p.wrapping_mul(p);
    let p3 = p2.wrapping_mul(p);
    let base = h.wrapping_mul(p3.wrapping_mul(p));
    ZT.with(|z| {
        let mut z = z.borrow_mut();
        let t = z.entry(bits).or_insert_with(|| {
            let mut t = HashMap::new();
            for a in 0..256u64 {
                for b in 0..256u64 {
                    let v = (a + 10).wrapping_mul(p).wrapping_add(b + 10) & mask;
                    t.insert(v, (a as u8, b as u8));
                }
            }
            t
        });
        let start = r.below(65536);
        let mut found = 0;
        for j in 0..65536u64 {
            let ab = (start + j) & 0xffff;
            let (b0, b1) = ((ab >> 8) as u8, ab as u8);
            let x = base
                .wrapping_add((b0 as u64 + 10).wrapping_mul(p3))
                .wrapping_add((b1 as u64 + 10).wrapping_mul(p2));
            let need = mask.wrapping_sub(x) & mask;
            if let Some((b2, b3)) = t.get(&need) {
                let s = [b0, b1, *b2, *b3];
                if accept(s) {
                    return Some(s);
                }
                found += 1;
                if found >= tries {
                    return None;
                }
            }
        }
        None
    })
}

fn zstd_hash(w: &[u8]) -> u64 {
    w.iter().fold(0u64, |h, b| h.wrapping_mul(ZSTD_PRIME).wrapping_add(*b as u64 + 10))
}

struct Builder<'a> {
    cfg: &'a Cfg,
    out: Vec<u8>,
    cap: usize,
    model: Option<Model>,
    fed: usize,
}

impl<'a> Builder<'a> {
    fn sync(&mut self) -> &mut Model {
        if self.model.is_none() {
            self.model = Some(Model::new(self.cfg, Mode::Search));
        }
        let m = self.model.as_mut().unwrap();
        while self.fed < self.out.len() {
            m.step(self.out[self.fed]);
            self.fed += 1;
        }
        m
    }
    fn room(&self) -> usize {
        self.cap.saturating_sub(self.out.len())
    }
    fn put(&mut self, b: u8) {
        if self.out.len() < self.cap {
            self.out.push(b);
        }
    }
    fn no_cut(&mut self, r: &mut Rng, len: usize) {
        let len = len.min(self.room());
        // half of the runs are flat: fast, and extreme for the extremum-based algorithms
        for _ in 0..len {
            let first = r.byte();
            let m = self.sync();
            let mut pick = first;
            for j in 0..256u32 {
                let c = first.wrapping_add((j as u8).wrapping_mul(37));
                if !m.peek(c) {
                    pick = c;
                    break;
                }
                if j > 6 && m.chunk_full() {
                    break;
                }
            }
            self.out.push(pick);
        }
    }
    fn steer(&mut self, r: &mut Rng, gap: usize) {
        if let Some(bits) = model::model_params_bits(self.cfg) {
            self.steer_zstd(r, gap, bits, None);
            return;
        }
        let min = self.cfg.limits().0 as usize;
        if min < 70_000 {
            let have = self.sync().chunk.len();
            if have + 1 < min {
                self.no_cut(r, min - have - 1);
            }
        }
        for _ in 0..gap {
            let b = r.byte();
            self.put(b);
        }
        if self.room() > 40 {
            let s = crate::solve::solve(self.sync(), r);
            if let Some(s) = s {
                self.out.extend_from_slice(&s);
                return;
            }
        }
        for _ in 0..600 {
            if self.room() == 0 {
                return;
            }
            let s = r.byte();
            let m = self.sync();
            for j in 0..=255u8 {
                let c = s.wrapping_add(j);
                if m.peek(c) {
                    self.out.push(c);
                    return;
                }
            }
            self.out.push(s);
        }
    }
    fn steer_zstd(&mut self, r: &mut Rng, gap: usize, bits: u32, twin: Option<usize>) {
        let fill = if self.out.len() < 29 { 29 - self.out.len() } else { 0 };
        for _ in 0..fill.max(gap.saturating_sub(4)) {
            let b = r.byte();
            self.put(b);
        }
        if self.room() < 8 {
            return;
        }
        let n = self.out.len();
        let tail: Vec<u8> = self.out[n - 28..].to_vec();
        let mask = (1u64 << bits) - 1;
        match twin {
            None if bits > 24 || (gap >= 12 && r.next() & 3 == 0) => {
                for _ in 0..12usize.saturating_sub(gap) {
                    let b = r.byte();
                    self.put(b);
                }
                let n = self.out.len();
                if n < 20 || self.room() < 12 {
                    return;
                }
                let s = crate::solve::zstd(&self.out[n - 20..], bits, r);
                self.out.extend_from_slice(&s.unwrap_or([0; 12]));
            }
            None => {
                if let Some(s) = zstd_solve(&tail, bits, r, |_| true, 1) {
                    self.out.extend_from_slice(&s);
                }
            }
            Some(d) => {
                let d = d.clamp(1, 3);
                let mut extra = vec![];
                let mut rr = r.clone();
                let sol = zstd_solve(
                    &tail,
                    bits,
                    r,
                    |s| {
                        let mut w = tail.clone();
                        w.extend_from_slice(&s);
                        let fillers: Vec<u8> = (0..d - 1).map(|_| rr.byte()).collect();
                        w.extend_from_slice(&fillers);
                        let h31 = zstd_hash(&w[w.len() - 31..]);
                        for b in 0..=255u8 {
                            let h = h31.wrapping_mul(ZSTD_PRIME).wrapping_add(b as u64 + 10);
                            if h & mask == mask {
                                extra = fillers.clone();
                                extra.push(b);
                                return true;
                            }
                        }
                        false
                    },
                    40_000,
                );
                match sol {
                    Some(s) => {
                        self.out.extend_from_slice(&s);
                        self.out.extend_from_slice(&extra);
                    }
                    None => self.steer_zstd(r, 4, bits, None),
                }
            }
        }
    }
}

/// `mult` stretches the runs (not the literals) of a recipe: the rare big cases.
pub fn expand(recipe: &[Op], cfg: &Cfg, cap: usize, mult: u32) -> Vec<u8> {
    let scale = cfg.scale() as u32;
    let mult = mult.max(1);
    let mut b = Builder { cfg, out: vec![], cap, model: None, fed: 0 };
    for op in recipe {
        let n = |len: u32, scaled: bool| -> usize { (if scaled { len.saturating_mul(scale) } else { len }).saturating_mul(mult) as usize };
        match op {
            Op::Lit(v) => v.iter().for_each(|x| b.put(*x)),
            Op::Rand { seed, len, scaled } => {
                let l = n(*len, *scaled).min(b.room());
                let s = b.out.len();
                b.out.resize(s + l, 0);
                Rng::new(*seed).fill(&mut b.out[s..]);
            }
            Op::Small { seed, len, a, b: c } => {
                let mut r = Rng::new(*seed);
                for _ in 0..n(*len, false).min(cap) {
                    let x = if r.next() & 64 == 0 { *a } else { *c };
                    b.put(x);
                }
            }
            Op::Rep { b: c, len, scaled } => {
                let l = n(*len, *scaled).min(b.room());
                let s = b.out.len();
                b.out.resize(s + l, *c);
            }
            Op::Period { pat, len } => {
                if !pat.is_empty() {
                    for i in 0..n(*len, false).min(cap) {
                        b.put(pat[i % pat.len()]);
                    }
                }
            }
            Op::Ramp { start, step, len } => {
                let mut v = *start;
                for _ in 0..n(*len, false).min(cap) {
                    b.put(v);
                    v = v.wrapping_add(*step);
                }
            }
            Op::Steer { seed, gaps } => {
                let mut r = Rng::new(*seed);
                for g in gaps {
                    b.steer(&mut r, *g as usize);
                }
            }
            Op::Twin { seed, d } => {
                let mut r = Rng::new(*seed);
                if let Some(bits) = model::model_params_bits(cfg) {
                    if bits <= 22 {
                        b.steer_zstd(&mut r, 4, bits, Some(*d as usize));
                        continue;
                    }
                }
                b.steer(&mut r, 0);
                b.steer(&mut r, *d as usize);
            }
            Op::Early { seed, n } => {
                let mut r = Rng::new(*seed);
                match model::model_params_bits(cfg) {
                    Some(bits) if bits <= 24 && b.out.len() + 4 <= *n as usize && b.room() > 40 => {
                        while b.out.len() + 4 < *n as usize {
                            let x = r.byte();
                            b.put(x);
                        }
                        if let Some(s) = zstd_solve(&b.out.clone(), bits, &mut r, |_| true, 1) {
                            b.out.extend_from_slice(&s);
                        }
                    }
                    _ => b.steer(&mut r, *n as usize),
                }
            }
            Op::NoCut { seed, len, scaled } => {
                let l = n(*len, *scaled);
                b.no_cut(&mut Rng::new(*seed), l);
            }
            Op::ToLimit { seed, max, delta } => {
                let (lo, hi) = cfg.limits();
                let lim = if *max { hi } else { Some(lo) };
                if let Some(l) = lim {
                    if l <= b.cap as u64 {
                        let have = b.sync().chunk.len() as i64;
                        let want = l as i64 + *delta as i64 - have;
                        if want > 0 {
                            b.no_cut(&mut Rng::new(*seed), want as usize);
                        }
                    }
                }
            }
            Op::Copy { back, len } => {
                if !b.out.is_empty() {
                    let back = 1 + (*back as usize % b.out.len());
                    let s = b.out.len() - back;
                    for i in 0..n(*len, false).min(cap) {
                        let x = b.out[s + (i % back)];
                        b.put(x);
                    }
                }
            }
        }
    }
    b.out
}

/// A division of a stream of `len` bytes into pieces.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Plan {
    Whole,
    Ones,
    Fixed(u16),
    List(Vec<u16>),
    /// piece ends at (cut + off), cuts counted from 0, deltas relative to a cut or to cut + window
    Around(Vec<(u8, i8, bool)>),
    /// explicit piece ends (used by minimised replays)
    Ends(Vec<usize>),
}

/// Piece ends, non-decreasing, the last one is `len`. `empties`: insert empty pieces.
pub fn piece_ends(p: &Plan, len: usize, cuts: &[usize], window: usize, empties: u8) -> Vec<usize> {
    let mut e: Vec<usize> = vec![];
    match p {
        Plan::Whole => {}
        Plan::Ones => e.extend(1..len.max(1)),
        Plan::Fixed(n) => {
            let n = (*n as usize).max(1);
            let mut x = n;
            while x < len {
                e.push(x);
                x += n;
            }
        }
        Plan::List(v) => {
            let mut x = 0;
            let mut i = 0;
            let total: usize = v.iter().map(|x| *x as usize).sum();
            while total > 0 {
                x += v[i % v.len()] as usize;
                if x >= len {
                    break;
                }
                e.push(x);
                i += 1;
                if e.len() > 200_000 {
                    break;
                }
            }
        }
        Plan::Around(v) => {
            for (c, d, win) in v {
                let base = if *c == 0 || cuts.is_empty() { 0 } else { cuts[(*c as usize - 1) % cuts.len()] };
                let x = base as i64 + if *win { window as i64 } else { 0 } + *d as i64;
                if x > 0 && (x as usize) < len {
                    e.push(x as usize);
                }
            }
            e.sort();
        }
        Plan::Ends(v) => {
            for x in v {
                e.push((*x).min(len));
            }
            e.sort();
        }
    }
    if empties > 0 && !matches!(p, Plan::Ends(_)) {
        let mut f = vec![];
        if empties & 1 != 0 {
            f.push(0);
        }
        for (i, x) in e.iter().enumerate() {
            f.push(*x);
            if (i + empties as usize) % 3 == 0 {
                f.push(*x);
            }
        }
        e = f;
    }
    e.push(len);
    if empties & 2 != 0 && !matches!(p, Plan::Ends(_)) {
        e.push(len);
    }
    e
}

